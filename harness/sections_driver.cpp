// Readers of files that consist of sections, derived from FileReader.
#include "runner.hpp"

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <stdexcept>
#include <unistd.h>

#include "libcatnip/io/file_readers/filereader.hpp"

using namespace std;
using namespace catnip;

struct Does {
  string k;
  int n;
  string w;
};

struct Section {
  string tag;
  set<string> headers;
  int fn;
};

// What it does with its sections is told; what its functions got is kept.
class Probe : public FileReader {
 public:
  Probe(const string& name, const vector<Section>& sections, const vector<Does>& does) : FileReader(name), does_(does) {
    for (const Section& s : sections) {
      if (!s.headers.empty()) sectionHeaders_[s.tag] = s.headers;
      if (s.fn == 1) sectionReaders_[s.tag] = section<1>;
      else if (s.fn == 2) sectionReaders_[s.tag] = section<2>;
      else if (s.fn == 3) sectionReaders_[s.tag] = section<3>;
      else if (s.fn == 4) sectionReaders_[s.tag] = section<4>;
      else if (s.fn != 0) abort();
    }
    registerSections_();
  }

  string calls;

 private:
  void registerSections_() override { FileReader::registerSections_(); }

  template <int F>
  static void section(void* p) { static_cast<Probe*>(p)->get(F); }

  void get(int f) {
    const Does& d = does_.at(f - 1);
    vector<string> got;
    string line;
    if (d.k == "back") fid_.seekg(pos_);
    if (d.k == "until") {
      while (getline(fid_, line)) {
        got.push_back(line);
        if (line.find(d.w) != string::npos) break;
      }
    } else {
      for (int i = 0; i < d.n && getline(fid_, line); ++i) got.push_back(line);
    }
    calls += string(calls.empty() ? "" : ",") + "{\"fn\":" + to_string(f) + ",\"lines\":[";
    for (size_t i = 0; i < got.size(); ++i) calls += (i ? "," : "") + json_string(got[i]);
    calls += "]}";
    if (d.k == "give") throw runtime_error("given up");
  }

  vector<Does> does_;
};

struct Sections : public Context {
  const string own = "sections" + to_string(getpid()) + "_" + to_string(reinterpret_cast<size_t>(this)) + "_";
  unique_ptr<Probe> probes[2];
  Probe* last = nullptr;
  set<string> names;
  ~Sections() override {
    for (auto& n : names) unlink(n.c_str());
  }

  string called() const { return last ? "\"calls\":[" + last->calls + "]" : ""; }
  string observe() override { return called(); }

  string call(const Tokens& t) override {
    last = nullptr;
    const string name = own + t[t[0] == "file" ? 1 : 2] + ".txt";
    if (t[0] == "file") {                 // f text
      names.insert(name);
      ofstream o(name, ios::binary | ios::trunc);
      o << t[2];
    } else if (t[0] == "gone") {          // - f
      names.insert(name);
      unlink(name.c_str());
    } else if (t[0] == "make") {          // m f (s tag fn n headers)* (d k n w)*
      vector<Section> s;
      vector<Does> d;
      for (size_t i = 3; i < t.size();) {
        if (t[i] == "s") {
          const size_t n = atoi(t.at(i + 3).c_str());
          s.push_back({t[i + 1], set<string>(t.begin() + i + 4, t.begin() + i + 4 + n), atoi(t[i + 2].c_str())});
          i += 4 + n;
        } else {
          d.push_back({t.at(i + 1), atoi(t.at(i + 2).c_str()), t.at(i + 3)});
          i += 4;
        }
      }
      unique_ptr<Probe>& p = probes[atoi(t[1].c_str()) - 1];
      p.reset();
      p.reset(new Probe(name, s, d));
    } else if (t[0] == "read") {          // m f
      last = probes[atoi(t[1].c_str()) - 1].get();
      last->calls.clear();
      last->read();
      return called();
    } else {
      abort();
    }
    return "";
  }
};

unique_ptr<Context> make_context() { return unique_ptr<Context>(new Sections); }
