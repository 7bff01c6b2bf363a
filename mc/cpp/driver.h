// Shared part of the drivers of generated C++ code.
#pragma once
#include <json/json.h>

#include <chrono>
#include <cstring>
#include <ctime>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace mcd {

inline void quote(std::string& o, const std::string& s) {
  static const char* hex = "0123456789abcdef";
  o += '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 0x20) {
      o += "\\u00";
      o += hex[c >> 4];
      o += hex[c & 15];
    } else {
      o += static_cast<char>(c);
    }
  }
  o += '"';
}

inline std::string number(double d) {
  if (d != d || d - d != 0) return "\"nonfinite\"";
  char buf[64];
  std::snprintf(buf, sizeof buf, "%.17g", d);
  if (!strpbrk(buf, ".e")) strcat(buf, ".0");
  return buf;
}

inline void write(std::string& o, const Json::Value& v) {
  switch (v.type()) {
    case Json::nullValue:
      o += "null";
      return;
    case Json::intValue:
    case Json::uintValue:
      o += v.asString();
      return;
    case Json::realValue:
      o += number(v.asDouble());
      return;
    case Json::stringValue:
      quote(o, v.asString());
      return;
    case Json::booleanValue:
      o += v.asBool() ? "true" : "false";
      return;
    case Json::arrayValue: {
      o += '[';
      bool first = true;
      for (auto it = v.begin(); it != v.end(); ++it) {
        if (!first) o += ',';
        first = false;
        write(o, *it);
      }
      o += ']';
      return;
    }
    case Json::objectValue: {
      o += '{';
      bool first = true;
      for (auto it = v.begin(); it != v.end(); ++it) {
        if (!first) o += ',';
        first = false;
        quote(o, it.name());
        o += ':';
        write(o, *it);
      }
      o += '}';
      return;
    }
  }
}

// Parses JSON texts as JsonCpp does: integers that fit become integers.
class Reader {
 public:
  explicit Reader(const std::string& s) : p_(s.data()), e_(p_ + s.size()) {}
  Json::Value all() {
    Json::Value v = value();
    ws();
    if (p_ != e_) die();
    return v;
  }
  Json::Value value() {
    ws();
    if (p_ == e_) die();
    switch (*p_) {
      case '{': {
        Json::Value v(Json::objectValue);
        ++p_;
        ws();
        if (take('}')) return v;
        do {
          ws();
          std::string k = str();
          ws();
          if (!take(':')) die();
          v[k] = value();
          ws();
        } while (take(','));
        if (!take('}')) die();
        return v;
      }
      case '[': {
        Json::Value v(Json::arrayValue);
        ++p_;
        ws();
        if (take(']')) return v;
        do {
          v.append(value());
          ws();
        } while (take(','));
        if (!take(']')) die();
        return v;
      }
      case '"':
        return Json::Value(str());
      case 't':
        word("true");
        return Json::Value(true);
      case 'f':
        word("false");
        return Json::Value(false);
      case 'n':
        word("null");
        return Json::Value();
      default:
        return num();
    }
  }

 private:
  const char* p_;
  const char* e_;
  [[noreturn]] void die() {
    std::cerr << "driver: malformed JSON at: " << std::string(p_, e_) << "\n";
    std::abort();
  }
  void ws() {
    while (p_ != e_ && (*p_ == ' ' || *p_ == '\n' || *p_ == '\t' ||
                        *p_ == '\r'))
      ++p_;
  }
  bool take(char c) {
    if (p_ != e_ && *p_ == c) {
      ++p_;
      return true;
    }
    return false;
  }
  void word(const char* w) {
    size_t n = strlen(w);
    if (static_cast<size_t>(e_ - p_) < n || strncmp(p_, w, n) != 0) die();
    p_ += n;
  }
  unsigned hex4() {
    if (e_ - p_ < 4) die();
    unsigned r = std::stoul(std::string(p_, p_ + 4), nullptr, 16);
    p_ += 4;
    return r;
  }
  std::string str() {
    if (!take('"')) die();
    std::string r;
    while (p_ != e_ && *p_ != '"') {
      if (*p_ != '\\') {
        r += *p_++;
        continue;
      }
      ++p_;
      char c = *p_++;
      switch (c) {
        case 'n': r += '\n'; break;
        case 't': r += '\t'; break;
        case 'r': r += '\r'; break;
        case 'b': r += '\b'; break;
        case 'f': r += '\f'; break;
        case 'u': {
          unsigned u = hex4();
          if (u >= 0xD800 && u < 0xDC00) {
            word("\\u");
            u = 0x10000 + ((u - 0xD800) << 10) + (hex4() - 0xDC00);
          }
          if (u < 0x80) {
            r += static_cast<char>(u);
          } else if (u < 0x800) {
            r += static_cast<char>(0xC0 | (u >> 6));
            r += static_cast<char>(0x80 | (u & 63));
          } else if (u < 0x10000) {
            r += static_cast<char>(0xE0 | (u >> 12));
            r += static_cast<char>(0x80 | ((u >> 6) & 63));
            r += static_cast<char>(0x80 | (u & 63));
          } else {
            r += static_cast<char>(0xF0 | (u >> 18));
            r += static_cast<char>(0x80 | ((u >> 12) & 63));
            r += static_cast<char>(0x80 | ((u >> 6) & 63));
            r += static_cast<char>(0x80 | (u & 63));
          }
          break;
        }
        default: r += c;
      }
    }
    if (!take('"')) die();
    return r;
  }
  Json::Value num() {
    const char* s = p_;
    bool real = false;
    while (p_ != e_ && strchr("+-0123456789.eE", *p_) && *p_) {
      if (*p_ == '.' || *p_ == 'e' || *p_ == 'E') real = true;
      ++p_;
    }
    if (p_ == s) die();
    std::string t(s, p_);
    if (!real) {
      errno = 0;
      long long i = std::strtoll(t.c_str(), nullptr, 10);
      if (errno == 0) return Json::Value(static_cast<Json::Int64>(i));
      errno = 0;
      if (t[0] != '-') {
        unsigned long long u = std::strtoull(t.c_str(), nullptr, 10);
        if (errno == 0) return Json::Value(static_cast<Json::UInt64>(u));
      }
    }
    return Json::Value(std::strtod(t.c_str(), nullptr));
  }
};

// --- writing values of generated types --------------------------------------

inline void put(std::string& o, bool v) { o += v ? "true" : "false"; }
inline void put(std::string& o, int64_t v) { o += std::to_string(v); }
inline void put(std::string& o, double v) { o += number(v); }
inline void put(std::string& o, const std::string& v) { quote(o, v); }

inline void fields(std::string& o, long long Y, int m, int d, int H, int M,
                   int S) {
  o += "{\"datetime\":{\"Y\":" + std::to_string(Y) +
       ",\"m\":" + std::to_string(m) + ",\"d\":" + std::to_string(d) +
       ",\"H\":" + std::to_string(H) + ",\"M\":" + std::to_string(M) +
       ",\"S\":" + std::to_string(S) + "}}";
}
inline void put(std::string& o, const struct tm& t) {
  fields(o, t.tm_year + 1900LL, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min,
         t.tm_sec);
}
inline void put(std::string& o, const std::chrono::nanoseconds& v) {
  o += "{\"ns\":" + std::to_string(static_cast<long long>(v.count())) + "}";
}

struct Trace {
  std::string ref, message;
};

// One generated graph as the driver sees it.
struct Sut {
  virtual ~Sut() {}
  // Parses the document into a fresh graph; fills in the errors and what was
  // thrown, and leaves the graph behind.
  virtual void parse(const Json::Value& doc, const std::string& ref,
                     size_t cap, std::vector<Trace>* errs,
                     std::string* thrown) = 0;
  virtual void dump(std::string& o) = 0;
  virtual Json::Value serialize() = 0;
  virtual void misid(const std::string& cls, const std::string& id,
                     const std::string& to) = 0;
  virtual std::string errors(const Json::Value& args) = 0;
  // Calls the functions of a single class or embeddable structure.
  virtual void sub(const std::string&, const Json::Value&, const std::string&,
                   size_t, std::string&) {}
};

typedef std::map<std::string, std::function<Sut*()>> Suts;
Suts& suts();
struct Reg {
  Reg(const char* n, std::function<Sut*()> f) { suts()[n] = f; }
};

template <class A, class Any>
A pass(const Any& any) {
  return any;
}
// Call a function with an object which converts to all the arguments.
template <class Any, class... A>
void call(void (*f)(A...), const Any& any) {
  f(pass<A>(any)...);
}

template <class E>
std::string trace_errors(const Json::Value& args) {
  std::vector<std::unique_ptr<E>> es;
  for (const auto& c : args["caps"])
    es.emplace_back(new E(static_cast<size_t>(c.asInt64())));
  std::string o = "[";
  auto snap = [&]() {
    if (o.size() > 1) o += ',';
    o += '[';
    bool first = true;
    for (const auto& p : es) {
      const E& e = *p;
      if (!first) o += ',';
      first = false;
      o += std::string("{\"full\":") + (e.full() ? "true" : "false") +
           ",\"empty\":" + (e.empty() ? "true" : "false") + ",\"values\":[";
      bool one = true;
      for (const auto& x : e.get()) {
        if (!one) o += ',';
        one = false;
        o += '[';
        quote(o, x.ref);
        o += ',';
        quote(o, x.message);
        o += ']';
      }
      o += "]}";
    }
    o += ']';
  };
  snap();
  for (const auto& op : args["ops"]) {
    E& e = *es[op[0].asInt()];
    if (op[1].isNull())
      e.reserve(static_cast<size_t>(op[2].asInt64()));
    else
      e.add(op[1].asString(), op[2].asString());
    snap();
  }
  return o + "]";
}

}  // namespace mcd
