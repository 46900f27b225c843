// Calls on the text helpers.
#include "runner.hpp"

#include <cstdlib>

#include "libcatnip/string_support.hpp"

using namespace std;
using namespace catnip;

struct Texts : public Context {
  string call(const Tokens& t) override {
    const string& op = t[0];
    const string& s = t[1];
    string r;
    auto put = [&](const char* name, const string& v) {
      r += (r.empty() ? "\"" : ",\"") + string(name) + "\":" + json_bytes(v);
    };
    if (op == "one") {
      put("dir", getPath(s));
      put("last", lastStringInPath(s));
      r += ",\"words\":[";
      bool first = true;
      for (auto& w : splitSt(s)) {
        r += (first ? "" : ",") + json_bytes(w);
        first = false;
      }
      r += "]";
      put("lt", ltrimmed(s));
      put("rt", rtrimmed(s));
      put("tr", trimmed(s));
      string x = s;
      trim(x);
      put("tr2", x);
      r += string(",\"alpha\":") + (isAlphabetical(s) ? "1" : "0");
    } else if (op == "number") {
      int n = atoi(t[2].c_str());
      put("fn", firstN(s, n));
      put("cb", cut_beg(s, n));
      put("ln", lastN(s, n));
      put("ce", cut_end(s, n));
    } else if (op == "search") {
      const string& o = t[2];
      put("af", grabStrAfterFirstOccurance(s, o));
      put("al", grabStrAfterLastOccurance(s, o));
      put("ali", grabStrAfterLastOccuranceInclusive(s, o));
      put("bf", grabStrBeforeFirstOccurance(s, o));
      put("bl", grabStrBeforeLastOccurance(s, o));
      put("bli", grabStrBeforeLastOccuranceInclusive(s, o));
      r += string(",\"found\":") + (foundSubStrInStr(s, o) ? "1" : "0");
    } else {
      abort();
    }
    return r;
  }
};

unique_ptr<Context> make_context() { return unique_ptr<Context>(new Texts); }
