// Messages of the log.
#include "runner.hpp"

#include <cstdlib>

#include "libcatnip/log.hpp"

using namespace std;
using namespace catnip;

// The place has to be told on the line of the message
#define SAY(m) do { at = __LINE__; LOG(m, level); } while (0)

struct Messages : public Context {
  string call(const Tokens& t) override {
    const string& op = t[0];
    int at = 0;
    if (op == "print") {
      cout << t[1];
    } else if (op == "branch") {
      const int level = atoi(t[2].c_str());
      const string& a = t[3];
      // clang-format off
      at = __LINE__; if (t[1] == "1") LOG(a, level); else cout << t[4];
      // clang-format on
    } else {
      const int level = atoi(t[1].c_str());
      const string a = t.size() > 2 ? t[2] : "", b = t.size() > 3 ? t[3] : "", c = t.size() > 4 ? t[4] : "";
      const int i = atoi(a.c_str()), j = atoi(b.c_str());
      string changing = a;
      if (op == "none") SAY("");
      else if (op == "lit") SAY("a literal");
      else if (op == "s") SAY(a);
      else if (op == "v") SAY(changing);
      else if (op == "ss") SAY(a << b);
      else if (op == "plus") SAY(a + b);
      else if (op == "sum") SAY(i + j);
      else if (op == "i") SAY(i);
      else if (op == "l") SAY(static_cast<long>(i));
      else if (op == "c") SAY(a[0]);
      else if (op == "p") SAY(a.c_str());
      else if (op == "is") SAY(i << b);
      else if (op == "si") SAY(a << j);
      else if (op == "ii") SAY(i << j);
      else if (op == "sss") SAY(a << b << c);
      else if (op == "lsl") SAY("<" << a << ">");
      else if (op == "lili") SAY("i=" << i << " j=" << j);
      else if (op == "many") SAY(a << i << b << j << c << "." << a << "-" << c);
      else if (op == "end") SAY(a << endl << b);
      else if (op == "twice") { at = __LINE__; LOG(a, level); LOG(b, level); }
      else abort();
    }
    return "\"file\":" + json_string(__FILE__) + ",\"line\":" + to_string(at) + ",\"said\":" + json_string(captured());
  }
};

unique_ptr<Context> make_context() { return unique_ptr<Context>(new Messages); }
