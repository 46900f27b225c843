// Rules, arguments and the parser of the command line.
#include "runner.hpp"

#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ftw.h>
#include <stdexcept>
#include <sys/stat.h>
#include <unistd.h>

#include "libcatnip/io/argumentparser.hpp"
#include "libcatnip/io/arguments/argumentswitch.hpp"
#include "libcatnip/io/arguments/properties/propertydouble.hpp"
#include "libcatnip/io/arguments/properties/propertyfileexist.hpp"
#include "libcatnip/io/arguments/properties/propertyfileext.hpp"
#include "libcatnip/io/arguments/properties/propertyint.hpp"
#include "libcatnip/io/arguments/properties/propertysisterfile.hpp"
#include "libcatnip/io/arguments/properties/propertystring.hpp"
#include "libcatnip/io/arguments/properties/propertystringchoice.hpp"
#include "libcatnip/io/arguments/properties/propertyswitch.hpp"
#include "libcatnip/io/file_readers/logreader.hpp"
#include "libcatnip/io/file_readers/punreader.hpp"
#include "libcatnip/io/io.hpp"
#include "libcatnip/parameters.hpp"

using namespace std;
using namespace catnip;

typedef vector<string> Words;

static string list(const Words& w) {
  string r = "[";
  for (size_t i = 0; i < w.size(); ++i) r += (i ? "," : "") + json_string(w[i]);
  return r + "]";
}

// Sixteen digits are more than any value used has.
static string decimal(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.14e", v);
  return b;
}

static int to_int(const string& s) { return static_cast<int>(strtol(s.c_str(), nullptr, 10)); }
static double to_double(const string& s) { return strtod(s.c_str(), nullptr); }

static Words words(int v) { return Words{to_string(v)}; }
static Words words(size_t v) { return Words{to_string(v)}; }
static Words words(double v) { return Words{decimal(v)}; }
static Words words(const string& v) { return Words{v}; }
static Words words(const set<string>& v) { return Words(v.begin(), v.end()); }
static Words words(const Words& v) { return v; }

// ---- a single rule ----------------------------------------------------
struct Rule {
  virtual ~Rule() {}
  virtual void set(const string& type, const string& opt, const Words& v) = 0;
  virtual Words get(const string& opt) = 0;
  virtual void valid(const string& v) = 0;
  virtual void post() = 0;
  virtual string names() = 0;
};

[[noreturn]] static void unusable() {
  fprintf(stderr, "unusable call\n");
  _exit(96);
}

static void value(const string& s, int& v) { v = to_int(s); }
static void value(const string& s, double& v) { v = to_double(s); }
static void value(const string& s, string& v) { v = s; }

template <typename P>
static void setRule(P& p, const string& type, const string& opt, const Words& v, int*) {
  if (type != "int") unusable();
  p.setPropOption(opt, to_int(v[0]));
}
template <typename P>
static void setRule(P& p, const string& type, const string& opt, const Words& v, double*) {
  if (type != "double") unusable();
  p.setPropOption(opt, to_double(v[0]));
}
template <typename P>
static void setRule(P& p, const string& type, const string& opt, const Words& v, size_t*) {
  if (type != "size") unusable();
  p.setPropOption(opt, static_cast<size_t>(strtoul(v[0].c_str(), nullptr, 10)));
}
template <typename P>
static void setRule(P& p, const string& type, const string& opt, const Words& v, string*) {
  if (type != "string") unusable();
  p.setPropOption(opt, v[0]);
}
template <typename P>
static void setRule(P& p, const string& type, const string& opt, const Words& v, set<string>*) {
  if (type == "string") {
    p.setPropOption(opt, v[0]);
  } else if (type == "set") {
    p.setPropOption(opt, set<string>(v.begin(), v.end()));
  } else {
    unusable();
  }
}
template <typename P>
static void setRule(P& p, const string& type, const string& opt, const Words& v, Words*) {
  if (type == "string") {
    p.setPropOption(opt, v[0]);
  } else if (type == "vector") {
    p.setPropOption(opt, v);
  } else {
    unusable();
  }
}

// S: type of the values checked, T: type of the settings
template <typename P, typename S, typename T>
struct RuleOf : public Rule {
  P p;
  template <typename... A>
  explicit RuleOf(A... a) : p(a...) {}
  void set(const string& type, const string& opt, const Words& v) override {
    setRule(p, type, opt, v, static_cast<T*>(nullptr));
  }
  Words get(const string& opt) override { return words(p.getPropOption(opt)); }
  void valid(const string& s) override {
    S v;
    value(s, v);
    if (!p.propValid(v)) throw invalid_argument("");
  }
  void post() override { p.postCheck(); }
  string names() override {
    return "\"name\":" + json_string(p.getPropertyName()) + ",\"opts\":" + list(p.getPropertyOptions());
  }
};

static Rule* makeRule(const Tokens& t) {
  const string& n = t[1];
  if (n == "PROPERTY_INT") return new RuleOf<PropertyInt, int, int>;
  if (n == "PROPERTY_DOUBLE") return new RuleOf<PropertyDouble, double, double>;
  if (n == "PROPERTY_STRING") return new RuleOf<PropertyString, string, size_t>;
  if (n == "PROPERTY_STRING_CHOICE")
    return new RuleOf<PropertyStringChoice, string, set<string>>;
  if (n == "PROPERTY_SWITCH") return new RuleOf<PropertySwitch, string, string>;
  if (n == "PROPERTY_FILE_EXIST") {
    if (t.size() > 2) return new RuleOf<PropertyFileExist, string, int>(to_int(t[2]));
    return new RuleOf<PropertyFileExist, string, int>;
  }
  if (n == "PROPERTY_FILE_EXT") {
    if (t.size() == 3) return new RuleOf<PropertyFileExt, string, set<string>>(t[2]);
    if (t.size() > 3)
      return new RuleOf<PropertyFileExt, string, set<string>>(set<string>(t.begin() + 2, t.end()));
    return new RuleOf<PropertyFileExt, string, set<string>>;
  }
  if (n == "PROPERTY_SISTER_FILE") return new RuleOf<PropertySisterFile, string, Words>;
  unusable();
}

// ---- an argument --------------------------------------------------------
struct Arg {
  virtual ~Arg() {}
  virtual void set(const string& prop, const string& type, const string& opt, const Words& v) = 0;
  virtual string get(const string& prop, const string& opt) = 0;
  virtual void valid(const string& v) = 0;
  virtual void post() = 0;
  virtual string names() = 0;
  virtual map<string, string> values() = 0;
};

template <typename A, typename S>
struct ArgOf : public Arg {
  A a;
  void set(const string& prop, const string& type, const string& opt, const Words& v) override {
    if (type == "int") a.setArgPropertyOpt(prop, opt, to_int(v[0]));
    else if (type == "double") a.setArgPropertyOpt(prop, opt, to_double(v[0]));
    else if (type == "string") a.setArgPropertyOpt(prop, opt, v[0]);
    else if (type == "set") a.setArgPropertyOpt(prop, opt, std::set<string>(v.begin(), v.end()));
    else if (type == "vector") a.setArgPropertyOpt(prop, opt, v);
    else unusable();
  }
  string get(const string& prop, const string& opt) override {
    return a.getPropertyValues(prop, opt);
  }
  void valid(const string& s) override {
    S v;
    value(s, v);
    if (!a.argValid(v)) throw invalid_argument("");
  }
  void post() override { a.postArgCheck(); }
  string names() override {
    return "\"name\":" + json_string(a.getArgumentName()) + ",\"rules\":" + list(a.getProperties()) +
           ",\"opts\":" + list(a.getPropertyOptions()) + ",\"takes\":" + (a.requiresParameter() ? "1" : "0");
  }
  map<string, string> values() override { return a.getPropertyValues(); }
};

static Arg* makeArg(const string& n) {
  if (n == "ARGUMENT_INT") return new ArgOf<ArgumentInt, int>;
  if (n == "ARGUMENT_DOUBLE") return new ArgOf<ArgumentDouble, double>;
  if (n == "ARGUMENT_STRING") return new ArgOf<ArgumentString, string>;
  if (n == "ARGUMENT_SWITCH") return new ArgOf<ArgumentSwitch, string>;
  if (n == "ARGUMENT_FILE") return new ArgOf<ArgumentFile, string>;
  unusable();
}

// ---- parameters ------------------------------------------------------------
typedef void (Parameters::*SetWord)(const string&);
typedef void (Parameters::*SetNumber)(const int&);
typedef void (Parameters::*SetFlag)(bool);

static void setParameter(Parameters& p, const string& f, const string& w) {
  static const map<string, SetWord> word_setters = {
      {"logP", &Parameters::setLogP},      {"log1", &Parameters::setLog1},      {"log2", &Parameters::setLog2},
      {"punP", &Parameters::setPunP},      {"pun1", &Parameters::setPun1},      {"pun2", &Parameters::setPun2},
      {"spinP", &Parameters::setSpinP},    {"spin1", &Parameters::setSpin1},    {"spin2", &Parameters::setSpin2},
      {"typeP", &Parameters::setOrbTypeP}, {"type1", &Parameters::setOrbType1}, {"type2", &Parameters::setOrbType2}};
  static const map<string, SetNumber> number_setters = {
      {"numP", &Parameters::setOrbNumP}, {"num1", &Parameters::setOrbNum1}, {"num2", &Parameters::setOrbNum2}};
  static const map<string, SetFlag> flag_setters = {
      {"cp", &Parameters::setCounterPoise}, {"cite", &Parameters::setCitation}};
  if (word_setters.count(f)) (p.*word_setters.at(f))(w);
  else if (number_setters.count(f)) (p.*number_setters.at(f))(to_int(w));
  else if (flag_setters.count(f)) (p.*flag_setters.at(f))(w == "1");
  else unusable();
}

static string parameters(const Parameters& p) {
  const map<string, string> m = {
      {"logP", p.getLogP()}, {"log1", p.getLog1()}, {"log2", p.getLog2()},
      {"punP", p.getPunP()}, {"pun1", p.getPun1()}, {"pun2", p.getPun2()},
      {"spinP", p.getSpinP()}, {"spin1", p.getSpin1()}, {"spin2", p.getSpin2()},
      {"typeP", p.getOrbTypeP()}, {"type1", p.getOrbType1()}, {"type2", p.getOrbType2()},
      {"numP", to_string(p.getOrbNumP())}, {"num1", to_string(p.getOrbNum1())}, {"num2", to_string(p.getOrbNum2())},
      {"cp", p.getCounterPoise() ? "1" : "0"}, {"cite", p.getCitation() ? "1" : "0"}};
  string r = "{";
  for (auto& x : m) r += (r.size() > 1 ? "," : "") + json_string(x.first) + ":" + json_string(x.second);
  return r + "}";
}

// ---- the directory of a case ---------------------------------------------
static int removeEntry(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }

struct Args : public Context {
  string home, top, here;
  unique_ptr<Rule> rule;
  unique_ptr<Arg> arg;
  unique_ptr<ArgumentParser> parser;
  unique_ptr<Parameters> ps[2];
  unique_ptr<FileReader> reader;

  ~Args() override {
    if (!top.empty()) {
      if (chdir(home.c_str()) != 0) _exit(96);
      nftw(top.c_str(), removeEntry, 16, FTW_DEPTH | FTW_PHYS);
    }
  }

  // Makes the directory of the case (top/up/here) and goes there.
  void enter() {
    if (grouped) return;     // such cases have no files
    if (!top.empty()) return;
    char buf[PATH_MAX];
    if (!getcwd(buf, sizeof buf)) _exit(96);
    home = buf;
    static int n = 0;
    top = home + "/case" + to_string(getpid()) + "_" + to_string(n++);
    here = top + "/up/here";
    if (mkdir(top.c_str(), 0755) || mkdir((top + "/up").c_str(), 0755) ||
        mkdir(here.c_str(), 0755) || chdir(here.c_str()))
      _exit(96);
  }

  string in(const string& s) const {      // @HERE@ to the directory
    size_t p = s.find("@HERE@");
    return p == string::npos || here.empty() ? s : s.substr(0, p) + here + s.substr(p + 6);
  }
  string out(const string& s) const {
    size_t p = here.empty() ? string::npos : s.find(here);
    return p == string::npos ? s : s.substr(0, p) + "@HERE@" + s.substr(p + here.size());
  }

  string printed() const { return "\"out\":" + json_string(captured()); }
  string observe() override { return printed() + (ps[0] ? "," + both() : ""); }
  string both() const { return "\"obs\":[" + parameters(*ps[0]) + "," + parameters(*ps[1]) + "]"; }

  string call(const Tokens& t) override {
    const string& op = t[0];
    Words rest(t.begin() + 1, t.end());
    for (auto& w : rest) w = in(w);
    if (op == "dir" || op == "file") {
      enter();
      const string& p = t[1];
      if (p.empty() || p[0] == '/' ) unusable();
      if (op == "dir") {
        if (mkdir(p.c_str(), 0755)) unusable();
      } else {
        FILE* f = fopen(p.c_str(), "w");
        if (!f) unusable();
        fclose(f);
      }
    } else if (op == "unlink") {
      if (t[1].empty() || t[1][0] == '/' || unlink(t[1].c_str())) unusable();
    } else if (op == "rule") {
      enter();
      rule.reset(makeRule(t));
    } else if (op == "rset") {
      rule->set(t[1], t[2], Words(t.begin() + 3, t.end()));
    } else if (op == "rget") {
      Words v = rule->get(t[1]);
      for (auto& w : v) w = out(w);
      return "\"val\":" + list(v);
    } else if (op == "rvalid") {
      rule->valid(rest[0]);
    } else if (op == "swnum") {           // a switch given as a number
      PropertySwitch p;
      if (!p.propValid(to_int(t[1]))) throw invalid_argument("");
      return string("\"on\":") + (ArgumentSwitch().positive(to_int(t[1])) ? "1" : "0");
    } else if (op == "swon") {            // and as a word
      return string("\"on\":") + (ArgumentSwitch().positive(rest[0]) ? "1" : "0");
    } else if (op == "rnames") {
      return rule->names();
    } else if (op == "anames") {
      return arg->names();
    } else if (op == "avalues") {
      Words os, vs;
      for (auto& x : arg->values()) {
        os.push_back(x.first);
        vs.push_back(out(x.second));
      }
      return "\"opts\":" + list(os) + ",\"vals\":" + list(vs);
    } else if (op == "rpost") {
      rule->post();
    } else if (op == "arg") {
      enter();
      arg.reset(makeArg(t[1]));
    } else if (op == "aset") {
      arg->set(t[1], t[2], t[3], Words(t.begin() + 4, t.end()));
    } else if (op == "aget") {
      return "\"val\":" + json_string(out(arg->get(t[1], t[2])));
    } else if (op == "avalid") {
      arg->valid(rest[0]);
    } else if (op == "apost") {
      arg->post();
    } else if (op == "parser") {          // flags separated by "\\x01"
      enter();
      set<vector<string>> flags;
      vector<string> f;
      for (size_t i = 1; i <= t.size(); ++i) {
        if (i == t.size() || t[i] == "\x01") {
          if (!f.empty()) flags.insert(f);
          f.clear();
        } else {
          f.push_back(t[i]);
        }
      }
      parser.reset(new ArgumentParser(flags));
    } else if (op == "add") {
      parser->addFlagArg(t[1], t[2]);
    } else if (op == "set") {             // flag arg prop opt type values
      const string& type = t[5];
      if (type == "int") parser->setFlagArgOpt(t[1], t[2], t[3], t[4], to_int(t[6]));
      else if (type == "double") parser->setFlagArgOpt(t[1], t[2], t[3], t[4], to_double(t[6]));
      else if (type == "string") parser->setFlagArgOpt(t[1], t[2], t[3], t[4], t[6]);
      else if (type == "set")
        parser->setFlagArgOpt(t[1], t[2], t[3], t[4], set<string>(t.begin() + 6, t.end()));
      else if (type == "vector")
        parser->setFlagArgOpt(t[1], t[2], t[3], t[4], vector<string>(t.begin() + 6, t.end()));
      else unusable();
    } else if (op == "opt") {
      return "\"val\":" + json_string(out(parser->getFlagArgOptValue(t[1], t[2], t[3], t[4])));
    } else if (op == "default") {
      if (t[2] == "int") parser->setFlagDefaultValue(t[1], to_int(t[3]));
      else if (t[2] == "double") parser->setFlagDefaultValue(t[1], to_double(t[3]));
      else if (t[2] == "string") parser->setFlagDefaultValue(t[1], t[3]);
      else if (t[2] == "size")
        parser->setFlagDefaultValue(t[1], static_cast<size_t>(strtoul(t[3].c_str(), nullptr, 10)));
      else unusable();
    } else if (op == "parse") {
      vector<const char*> argv{"calc_J"};
      for (auto& w : rest) argv.push_back(w.c_str());
      // As in main the list ends with a null pointer.
      argv.push_back(nullptr);
      parser->parse(argv.data(), static_cast<int>(argv.size()) - 1);
      return printed();
    } else if (op == "get") {
      string v;
      if (t[1] == "int") v = to_string(parser->getInt(t[2]));
      else if (t[1] == "double") v = decimal(parser->getDouble(t[2]));
      else if (t[1] == "string") v = out(parser->getStr(t[2]));
      else if (t[1] == "size") v = to_string(parser->getSize_t(t[2]));
      else unusable();
      return "\"val\":" + json_string(v);
    } else if (op == "post") {
      parser->postParseCheck();
    } else if (op == "pnew" || op == "pset" || op == "pcopy") {
      for (auto& p : ps) if (!p) p.reset(new Parameters);
      unique_ptr<Parameters>& p = ps[to_int(t[1]) - 1];
      if (op == "pnew") p.reset(new Parameters);
      else if (op == "pcopy") *p = Parameters(*ps[to_int(t[2]) - 1]);
      else setParameter(*p, t[2], t[3]);
      return both();
    } else if (op == "reader") {
      enter();
      reader.reset();
      if (t[1] == "log") reader.reset(new LogReader(rest[1]));
      else if (t[1] == "pun") reader.reset(new PunReader(rest[1]));
      else reader.reset(new FileReader(rest[1]));
    } else if (op == "ext") {
      if (!reader) throw invalid_argument("");
      return "\"val\":" + json_string(reader->getExt());
    } else if (op == "read") {
      if (!reader) throw invalid_argument("");
      reader->read();
    } else if (op == "usage") {
      parser->showUsage();
      return printed();
    } else if (op == "ownusage") {
      prepareParser()->showUsage();
      return printed();
    } else if (op == "line") {            // a command line of calc_J
      enter();
      vector<const char*> argv{"calc_J"};
      for (auto& w : rest) argv.push_back(w.c_str());
      argv.push_back(nullptr);
      unique_ptr<ArgumentParser> ap = prepareParser();
      ap->parse(argv.data(), static_cast<int>(argv.size()) - 1);
      unique_ptr<Parameters> p = prepareParameters(ap);
      Words v{out(p->getPunP()), out(p->getPun1()), out(p->getPun2()),
              out(p->getLogP()), out(p->getLog1()), out(p->getLog2())};
      return printed() + ",\"files\":" + list(v) + ",\"spins\":" +
             list(Words{p->getSpinP(), p->getSpin1(), p->getSpin2()}) + ",\"types\":" +
             list(Words{p->getOrbType1(), p->getOrbType2()}) + ",\"nums\":" +
             list(Words{to_string(p->getOrbNum1()), to_string(p->getOrbNum2())}) + ",\"cp\":" +
             (p->getCounterPoise() ? "1" : "0");
    } else {
      unusable();
    }
    return "";
  }
};

unique_ptr<Context> make_context() { return unique_ptr<Context>(new Args); }
