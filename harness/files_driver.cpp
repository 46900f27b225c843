// Reading of log and coefficient files, whole or cut off.
#include "runner.hpp"

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <unistd.h>

#include "libcatnip/io/file_readers/logreader.hpp"
#include "libcatnip/io/file_readers/punreader.hpp"
#include "libcatnip/matrix.hpp"

using namespace std;
using namespace catnip;

// A number with nine digits.
static string num(double v) {
  if (v == 0) v = 0;
  char b[64];
  snprintf(b, sizeof b, "\"%.8e\"", v == 0 ? 0.0 : v);
  return b;
}

static string nums(const vector<double>& v) {
  string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + num(v[i]);
  return r + "]";
}

static string rows(const Matrix* m) {
  string r = "[";
  for (int i = 1; i <= m->get_rows(); ++i) {
    r += i > 1 ? ",[" : "[";
    for (int j = 1; j <= m->get_cols(); ++j) r += (j > 1 ? "," : "") + num(m->get_elem(i, j));
    r += "]";
  }
  return r + "]";
}

struct Files : public Context {
  const string own = to_string(getpid()) + "_" + to_string(reinterpret_cast<size_t>(this));
  string name;
  // Readers that are used again: the files and the readers of them.
  map<string, string> names;
  unique_ptr<LogReader> logs[2];
  unique_ptr<PunReader> puns[2];
  ~Files() override {
    if (!name.empty()) unlink(name.c_str());
    for (auto& n : names) unlink(n.second.c_str());
  }

  // The first n bytes of a file, under another name.
  string cut(const string& path, long n, const string& ext) {
    if (n < 0) return path;
    ifstream f(path, ios::binary);
    stringstream ss;
    ss << f.rdbuf();
    name = "cut" + own + ext;
    ofstream o(name, ios::binary | ios::trunc);
    o << ss.str().substr(0, n);
    o.close();
    return name;
  }

  static string energies(const LogReader& r, const string& spin) {
    try {
      vector<double> e = r.getOE(spin);
      return "{\"homo\":" + to_string(r.getHOMOLevel(spin)) + ",\"e\":" + nums(e) + "}";
    } catch (const exception&) {
      return "{\"homo\":-1,\"e\":[]}";
    }
  }

  static string tell(LogReader& r) {
    string s = "\"alpha\":" + energies(r, "Alpha") + ",\"beta\":" + energies(r, "Beta");
    s += ",\"xyz\":[";
    vector<vector<double>> xyz = r.getCoords();
    for (size_t i = 0; i < xyz.size(); ++i) s += (i ? "," : "") + nums(xyz[i]);
    s += "],\"ov\":";
    try {
      Matrix* m = r.getOverlapMatrix();
      s += "[" + (m ? rows(m) : "\"null\"") + "]";
    } catch (const exception&) {
      s += "[]";
    }
    s += ",\"counts\":[";
    vector<int> c = r.getBasisFuncCount();
    for (size_t i = 0; i < c.size(); ++i) s += (i ? "," : "") + to_string(c[i]);
    s += "],\"ao\":[";
    bool first = true;
    for (auto& a : r.getOrbitalInfo()) {
      s += string(first ? "" : ",") + "{\"el\":" + json_string(a.first.second) + ",\"funs\":[";
      first = false;
      bool f = true;
      for (auto& x : a.second) {
        s += string(f ? "" : ",") + "{\"lab\":" + json_string(x.first) + ",\"pops\":" + nums(x.second) + "}";
        f = false;
      }
      s += "]}";
    }
    return s + "]";
  }

  static string tell(PunReader& r) {
    string s;
    for (const char* spin : {"Alpha", "Beta"}) {
      s += string("\"") + (spin[0] == 'A' ? "alpha" : "beta") + "\":";
      try {
        Matrix* m = r.getCoefsMatrix(spin);
        s += "[" + (m ? rows(m) : "\"null\"") + "]";
      } catch (const exception&) {
        s += "[]";
      }
      s += ",";
    }
    return s + "\"restricted\":" + (r.restrictedShell() ? "1" : "0");
  }

  // What the two readers tell.
  string both() {
    string s = "\"obs\":[";
    for (int m = 0; m < 2; ++m)
      s += string(m ? "," : "") + "{" + (logs[m] ? tell(*logs[m]) : puns[m] ? tell(*puns[m]) : "\"none\":1") + "}";
    return s + "]";
  }

  string observe() override { return names.empty() ? "" : both(); }

  string call(const Tokens& t) override {
    if (t[0] == "open") {           // reader, file, kind, extension
      int m = atoi(t[1].c_str()) - 1;
      string& n = names[t[2]];
      if (n.empty()) n = "re" + own + "_" + t[2] + t[4];
      logs[m].reset();
      puns[m].reset();
      if (t[3] == "log")
        logs[m].reset(new LogReader(n));
      else
        puns[m].reset(new PunReader(n));
      return "";
    }
    if (t[0] == "put") {            // file, where its contents are, bytes of them
      ifstream f(t[2], ios::binary);
      stringstream ss;
      ss << f.rdbuf();
      ofstream o(names[t[1]], ios::binary | ios::trunc);
      o << (t[3] == "-1" ? ss.str() : ss.str().substr(0, atol(t[3].c_str())));
      return "";
    }
    if (t[0] == "drop") {
      unlink(names[t[1]].c_str());
      return "";
    }
    if (t[0] == "rd") {
      int m = atoi(t[1].c_str()) - 1;
      if (logs[m])
        logs[m]->read();
      else
        puns[m]->read();
      return both();
    }
    string ext = t[1].substr(t[1].rfind('.'));
    string path = cut(t[1], atol(t[2].c_str()), ext);
    int times = t.size() > 3 ? atoi(t[3].c_str()) : 1;
    // Reading again changes nothing.
    auto read = [times](FileReader& r) {
      for (int i = 1; i < times; ++i) {
        try {
          r.read();
        } catch (const exception&) {
        }
      }
      r.read();
    };
    if (t[0] == "log") {
      LogReader r(path);
      read(r);
      return tell(r);
    }
    if (t[0] == "pun") {
      PunReader r(path);
      read(r);
      return tell(r);
    }
    abort();
  }
};

unique_ptr<Context> make_context() { return unique_ptr<Context>(new Files); }
