// Calls on the matrix class.
#include "runner.hpp"

#include <cmath>
#include <cstdlib>
#include <sstream>
#include <thread>

#include "libcatnip/matrix.hpp"

using namespace std;
using namespace catnip;

typedef unique_ptr<Matrix> P;

static int I(const string& s) { return atoi(s.c_str()); }
// The numbers of a matrix are multiples of 1/1024 or another power of two ("unit"), written as integers.
static double D(const string& s, double unit) { return strtod(s.c_str(), nullptr) / unit; }
static string num(double v, double unit) { return json_int(v * unit); }
static string nums_of(vector<double> v, double unit) {
  for (double& x : v) x *= unit;
  return json_ints(v);
}

static string show(const Matrix* m, double unit) {
  if (m == nullptr) return "{\"r\":-1,\"c\":-1,\"s\":-1,\"e\":[]}";
  string r = "{\"r\":" + to_string(m->get_rows()) + ",\"c\":" + to_string(m->get_cols()) +
             ",\"s\":" + to_string(m->get_shel()) + ",\"e\":[";
  bool first = true;
  for (int i = 1; i <= m->get_rows(); ++i)
    for (int j = 1; j <= m->get_cols(); ++j)
      for (int k = 1; k <= m->get_shel(); ++k) {
        if (!first) r += ",";
        first = false;
        r += json_int(m->get_elem(i, j, k) * unit);
      }
  return r + "]}";
}

static void edit_copy(Matrix m) {
  // Everything the callee does to its copy is invisible to the caller.
  if (m.get_rows() > 0 && m.get_cols() > 0 && m.get_shel() > 0) {
    m.set_elem(-7, 1, 1, 1);
    m.set_rows(m.get_rows() + 1);
    m.set_elem(-8, m.get_rows(), 1, 1);
  }
}

struct Matrices : public Context {
  P m[4];   // slots 1 to 3
  double units[4] = {1024, 1024, 1024, 1024};

  string obs() const {
    return "\"obs\":[" + show(m[1].get(), units[1]) + "," + show(m[2].get(), units[2]) + "," +
           show(m[3].get(), units[3]) + "]";
  }

  string observe() override { return obs(); }

  static vector<double> nums(const Tokens& t, size_t from, double unit) {
    vector<double> v;
    for (size_t i = from; i < t.size(); ++i) v.push_back(D(t[i], unit));
    return v;
  }

  string done(const string& val = "[]") { return "\"val\":" + val + "," + obs(); }
  string made(P r, double unit) {
    string s = show(r.get(), unit);
    return "\"res\":" + s + "," + obs();
  }

  string call(const Tokens& t) override {
    const string& op = t[0];
    int a = t.size() > 1 ? I(t[1]) : 0;
    P& x = m[(a >= 1 && a <= 3) ? a : 0];
    const double u = units[(a >= 1 && a <= 3) ? a : 1];
    auto i = [&](size_t n) { return I(t[n]); };
    auto slot = [&](size_t n) -> Matrix& { return *m[I(t[n])]; };

    // unit EXPONENT of slots 1 to 3
    if (op == "unit") {
      for (int n = 1; n <= 3; ++n) units[n] = ldexp(1.0, i(n));
      return done();
    }
    // make SLOT r c s values...: start of a history
    if (op == "make") {
      x.reset(new Matrix(i(2), i(3), i(4)));
      size_t n = 5;
      for (int r = 1; r <= i(2); ++r)
        for (int c = 1; c <= i(3); ++c)
          for (int s = 1; s <= i(4); ++s) x->set_elem(D(t[n++], u), r, c, s);
      return done();
    }
    if (op == "new") { x.reset(new Matrix(i(2), i(3), i(4))); return done(); }
    if (op == "new2") { x.reset(new Matrix(i(2), i(3))); return done(); }
    if (op == "new1") { x.reset(new Matrix(i(2))); return done(); }
    if (op == "set") { x->set_elem(D(t[2], u), i(3), i(4), i(5)); return done(); }
    if (op == "set2") { x->set_elem(D(t[2], u), i(3), i(4)); return done(); }
    if (op == "set1") { x->set_elem(D(t[2], u), i(3)); return done(); }
    if (op == "set0") { x->set_elem(D(t[2], u)); return done(); }
    if (op == "get") { string v = num(x->get_elem(i(2), i(3), i(4)), u); return done("[" + v + "]"); }
    if (op == "get2") { string v = num(x->get_elem(i(2), i(3)), u); return done("[" + v + "]"); }
    if (op == "get1") { string v = num(x->get_elem(i(2)), u); return done("[" + v + "]"); }
    if (op == "get0") { string v = num(x->get_elem(), u); return done("[" + v + "]"); }
    if (op == "getrow") { string v = nums_of(x->get_row(i(2)), u); return done(v); }
    if (op == "getcol") { string v = nums_of(x->get_col(i(2)), u); return done(v); }
    if (op == "setrow") { x->set_row(nums(t, 3, u), i(2)); return done(); }
    if (op == "setcol") { x->set_col(nums(t, 3, u), i(2)); return done(); }
    if (op == "swaprow") { x->swap_row(i(2), i(3)); return done(); }
    if (op == "swapcol") { x->swap_col(i(2), i(3)); return done(); }
    if (op == "moverow") { x->move_row(i(2), i(3)); return done(); }
    if (op == "movecol") { x->move_col(i(2), i(3)); return done(); }
    if (op == "rows") { x->set_rows(i(2)); return done(); }
    if (op == "cols") { x->set_cols(i(2)); return done(); }
    if (op == "shel") { x->set_shel(i(2)); return done(); }
    if (op == "resize") { x->resize(i(2), i(3)); return done(); }
    if (op == "copy") { x.reset(new Matrix(slot(2))); return done(); }
    if (op == "assign") { *x = slot(2); return done(); }
    if (op == "mcopy") { x.reset(new Matrix(Matrix_copy(slot(2)))); return done(); }
    if (op == "pass") { edit_copy(*x); return done(); }
    if (op == "def") { x.reset(new Matrix()); return done(); }
    if (op == "ptr") { string v = num(*x->get_elem_ptr(i(2), i(3)), u); return done("[" + v + "]"); }
    if (op == "ptrset") { *x->get_elem_ptr(i(3), i(4)) = D(t[2], u); return done(); }
    if (op == "places") {   // where each element is kept
      vector<double> v;
      for (int r = 1; r <= x->get_rows(); ++r)
        for (int c = 1; c <= x->get_cols(); ++c)
          for (int s = 1; s <= x->get_shel(); ++s) v.push_back(x->index(r, c, s));
      return done(json_ints(v));
    }
    if (op == "total") { string v = json_int(x->total_elem()); return done("[" + v + "]"); }

    if (op == "show") {   // the words of the printed text
      ostringstream out;
      out << *x;
      istringstream in(out.str());
      string w, list;
      while (in >> w) list += (list.empty() ? "" : ",") + json_string(w);
      return "\"words\":[" + list + "]," + obs();
    }

    // Several threads read the matrix, what each of them sees
    if (op == "readers") {
      vector<string> seen(3);
      vector<thread> threads;
      const Matrix& shared = *x;
      for (size_t n = 0; n < seen.size(); ++n)
        threads.push_back(thread([&, n] {
          if (shared.get_rows() < 1 || shared.get_cols() < 1 || shared.get_shel() < 1) {
            seen[n] = show(&shared, u);
            return;
          }
          Matrix copy(shared);
          Matrix turned = shared.get_shel() == 1 ? shared.invert() : Matrix(1);
          for (int r = 1; r <= shared.get_rows(); ++r) shared.get_row(r);
          for (int c = 1; c <= shared.get_cols(); ++c) shared.get_col(c);
          shared.getRow(1);
          shared.getCol(1);
          if (shared.get_shel() == 1) {
            Matrix m = shared * turned;
            Matrix_concatenate_rows(shared, copy);
            Matrix_concatenate_cols(shared, copy);
          }
          ostringstream out;
          out << copy;
          seen[n] = show(n == 1 ? &copy : &shared, u);
        }));
      for (auto& t : threads) t.join();
      string list;
      for (auto& s : seen) list += (list.empty() ? "" : ",") + s;
      return "\"seen\":[" + list + "]," + obs();
    }

    // Operations with a result matrix
    if (op == "mul") return made(P(new Matrix(slot(1) * slot(2))), u * units[I(t[2])]);
    if (op == "tr") return made(P(new Matrix(slot(1).invert())), u);
    if (op == "diag") return made(P(new Matrix(Matrix_diag(slot(1)))), u);
    if (op == "catrows") return made(P(new Matrix(Matrix_concatenate_rows(slot(1), slot(2)))), u);
    if (op == "catcols") return made(P(new Matrix(Matrix_concatenate_cols(slot(1), slot(2)))), u);
    if (op == "mrow") return made(P(new Matrix(slot(1).getRow(i(2)))), u);
    if (op == "mcol") return made(P(new Matrix(slot(1).getCol(i(2)))), u);
    if (op == "dup") return made(P(new Matrix(Matrix_copy(slot(1)))), u);
    if (op == "listd") return made(P(new Matrix(nums(t, 1, units[1]))), units[1]);
    if (op == "listi") {
      vector<int> v;
      for (size_t n = 1; n < t.size(); ++n) v.push_back(I(t[n]));
      return made(P(new Matrix(v)), 1);
    }
    if (op == "listl") {   // rows separated by ";"
      vector<vector<double>> v(1);
      for (size_t n = 1; n < t.size(); ++n) {
        if (t[n] == ";") v.push_back(vector<double>());
        else v.back().push_back(D(t[n], units[1]));
      }
      return made(P(new Matrix(v)), units[1]);
    }
    abort();
  }
};

unique_ptr<Context> make_context() { return unique_ptr<Context>(new Matrices); }
