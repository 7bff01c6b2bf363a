// A small stand-in for the part of JsonCpp (1.8/1.9 semantics) that code
// generated by mapry uses.  JsonCpp itself is not installed in the sandbox.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace Json {
typedef int64_t Int64;
typedef uint64_t UInt64;
typedef int Int;
typedef unsigned int UInt;
typedef unsigned int ArrayIndex;
typedef std::string String;

class Exception : public std::runtime_error {
 public:
  explicit Exception(const std::string& m) : std::runtime_error(m) {}
};
class LogicError : public Exception {
 public:
  explicit LogicError(const std::string& m) : Exception(m) {}
};

enum ValueType {
  nullValue = 0,
  intValue,
  uintValue,
  realValue,
  stringValue,
  booleanValue,
  arrayValue,
  objectValue
};

class Value;

class ValueConstIterator {
 public:
  ValueConstIterator() = default;
  const Value& operator*() const;
  const Value* operator->() const { return &**this; }
  ValueConstIterator& operator++();
  ValueConstIterator operator++(int) {
    ValueConstIterator r = *this;
    ++*this;
    return r;
  }
  bool operator==(const ValueConstIterator& o) const;
  bool operator!=(const ValueConstIterator& o) const { return !(*this == o); }
  std::string name() const;
  Value key() const;
  UInt index() const;

 private:
  friend class Value;
  bool arr_ = false;
  size_t i_ = 0;
  const std::vector<Value>* vec_ = nullptr;
  std::map<std::string, Value>::const_iterator it_;
};

class Value {
 public:
  typedef ValueConstIterator const_iterator;
  typedef std::vector<std::string> Members;

  Value(ValueType t = nullValue) : t_(t) {}
  Value(Int v) : t_(intValue), i_(v) {}
  Value(UInt v) : t_(uintValue), u_(v) {}
  Value(Int64 v) : t_(intValue), i_(v) {}
  Value(UInt64 v) : t_(uintValue), u_(v) {}
  Value(double v) : t_(realValue), d_(v) {}
  Value(const char* v) : t_(stringValue), s_(v) {}
  Value(const std::string& v) : t_(stringValue), s_(v) {}
  Value(bool v) : t_(booleanValue), b_(v) {}
  Value(const Value&) = default;
  Value(Value&&) = default;
  Value& operator=(const Value&) = default;
  Value& operator=(Value&&) = default;

  ValueType type() const { return t_; }
  bool isNull() const { return t_ == nullValue; }
  bool isBool() const { return t_ == booleanValue; }
  bool isInt64() const {
    switch (t_) {
      case intValue:
        return true;
      case uintValue:
        return u_ <= static_cast<UInt64>(INT64_MAX);
      case realValue: {
        double ip;
        return d_ >= -9223372036854775808.0 && d_ < 9223372036854775808.0 &&
               std::modf(d_, &ip) == 0.0;
      }
      default:
        return false;
    }
  }
  bool isUInt64() const {
    switch (t_) {
      case intValue:
        return i_ >= 0;
      case uintValue:
        return true;
      case realValue: {
        double ip;
        return d_ >= 0 && d_ < 18446744073709551616.0 &&
               std::modf(d_, &ip) == 0.0;
      }
      default:
        return false;
    }
  }
  bool isInt() const {
    return isInt64() && asInt64() >= INT32_MIN && asInt64() <= INT32_MAX;
  }
  bool isIntegral() const { return isInt64() || isUInt64(); }
  bool isDouble() const {
    return t_ == intValue || t_ == uintValue || t_ == realValue;
  }
  bool isNumeric() const { return isDouble(); }
  bool isString() const { return t_ == stringValue; }
  bool isArray() const { return t_ == arrayValue; }
  bool isObject() const { return t_ == objectValue; }

  Int64 asInt64() const {
    switch (t_) {
      case intValue:
        return i_;
      case uintValue:
        if (u_ > static_cast<UInt64>(INT64_MAX))
          throw LogicError("LargestUInt out of Int64 range");
        return static_cast<Int64>(u_);
      case realValue:
        if (!(d_ >= -9223372036854775808.0 && d_ < 9223372036854775808.0))
          throw LogicError("double out of Int64 range");
        return static_cast<Int64>(d_);
      case nullValue:
        return 0;
      case booleanValue:
        return b_ ? 1 : 0;
      default:
        throw LogicError("Value is not convertible to Int64.");
    }
  }
  Int asInt() const {
    if (!isInt()) throw LogicError("out of Int range");
    return static_cast<Int>(asInt64());
  }
  double asDouble() const {
    switch (t_) {
      case intValue:
        return static_cast<double>(i_);
      case uintValue:
        return static_cast<double>(u_);
      case realValue:
        return d_;
      case nullValue:
        return 0.0;
      case booleanValue:
        return b_ ? 1.0 : 0.0;
      default:
        throw LogicError("Value is not convertible to double.");
    }
  }
  bool asBool() const {
    switch (t_) {
      case booleanValue:
        return b_;
      case nullValue:
        return false;
      case intValue:
        return i_ != 0;
      case uintValue:
        return u_ != 0;
      case realValue:
        return d_ != 0.0;
      default:
        throw LogicError("Value is not convertible to bool.");
    }
  }
  std::string asString() const {
    switch (t_) {
      case stringValue:
        return s_;
      case nullValue:
        return "";
      case booleanValue:
        return b_ ? "true" : "false";
      case intValue:
        return std::to_string(i_);
      case uintValue:
        return std::to_string(u_);
      case realValue:
        return std::to_string(d_);
      default:
        throw LogicError("Type is not convertible to string");
    }
  }

  ArrayIndex size() const {
    if (t_ == arrayValue) return static_cast<ArrayIndex>(a_.size());
    if (t_ == objectValue) return static_cast<ArrayIndex>(o_.size());
    return 0;
  }
  bool empty() const {
    return (t_ == nullValue || t_ == arrayValue || t_ == objectValue) &&
           size() == 0;
  }

  Value& operator[](ArrayIndex i) {
    if (t_ == nullValue) *this = Value(arrayValue);
    need(t_ == arrayValue, "operator[](ArrayIndex): requires arrayValue");
    if (i >= a_.size()) a_.resize(static_cast<size_t>(i) + 1);
    return a_[i];
  }
  Value& operator[](int i) {
    need(i >= 0, "operator[](int): index cannot be negative");
    return (*this)[static_cast<ArrayIndex>(i)];
  }
  const Value& operator[](ArrayIndex i) const {
    need(t_ == nullValue || t_ == arrayValue,
         "operator[](ArrayIndex) const: requires arrayValue");
    return i < a_.size() ? a_[i] : null_();
  }
  const Value& operator[](int i) const {
    need(i >= 0, "operator[](int) const: index cannot be negative");
    return (*this)[static_cast<ArrayIndex>(i)];
  }
  Value& operator[](const char* k) { return at_(std::string(k)); }
  Value& operator[](const std::string& k) { return at_(k); }
  const Value& operator[](const char* k) const { return cat_(std::string(k)); }
  const Value& operator[](const std::string& k) const { return cat_(k); }
  Value& append(const Value& v) { return (*this)[size()] = v; }

  bool isMember(const char* k) const { return isMember(std::string(k)); }
  bool isMember(const std::string& k) const {
    need(t_ == nullValue || t_ == objectValue,
         "in Json::Value::find(begin, end): requires objectValue or nullValue");
    return o_.find(k) != o_.end();
  }
  Members getMemberNames() const {
    need(t_ == nullValue || t_ == objectValue, "getMemberNames");
    Members m;
    for (const auto& kv : o_) m.push_back(kv.first);
    return m;
  }

  const_iterator begin() const {
    ValueConstIterator r;
    if (t_ == arrayValue) {
      r.arr_ = true;
      r.vec_ = &a_;
      r.i_ = 0;
    } else {
      r.it_ = o_.begin();
    }
    return r;
  }
  const_iterator end() const {
    ValueConstIterator r;
    if (t_ == arrayValue) {
      r.arr_ = true;
      r.vec_ = &a_;
      r.i_ = a_.size();
    } else {
      r.it_ = o_.end();
    }
    return r;
  }

 private:
  friend class ValueConstIterator;
  static const Value& null_() {
    static const Value v;
    return v;
  }
  static void need(bool ok, const char* m) {
    if (!ok) throw LogicError(m);
  }
  Value& at_(const std::string& k) {
    if (t_ == nullValue) *this = Value(objectValue);
    need(t_ == objectValue, "in Json::Value::resolveReference: requires objectValue");
    return o_[k];
  }
  const Value& cat_(const std::string& k) const {
    need(t_ == nullValue || t_ == objectValue,
         "in Json::Value::find: requires objectValue or nullValue");
    auto it = o_.find(k);
    return it == o_.end() ? null_() : it->second;
  }

  ValueType t_;
  Int64 i_ = 0;
  UInt64 u_ = 0;
  double d_ = 0;
  bool b_ = false;
  std::string s_;
  std::vector<Value> a_;
  std::map<std::string, Value> o_;
};

inline const Value& ValueConstIterator::operator*() const {
  return arr_ ? (*vec_)[i_] : it_->second;
}
inline ValueConstIterator& ValueConstIterator::operator++() {
  if (arr_)
    ++i_;
  else
    ++it_;
  return *this;
}
inline bool ValueConstIterator::operator==(const ValueConstIterator& o) const {
  return arr_ ? i_ == o.i_ : it_ == o.it_;
}
inline std::string ValueConstIterator::name() const {
  return arr_ ? std::string() : it_->first;
}
inline Value ValueConstIterator::key() const {
  return arr_ ? Value(static_cast<UInt>(i_)) : Value(it_->first);
}
inline UInt ValueConstIterator::index() const {
  return arr_ ? static_cast<UInt>(i_) : static_cast<UInt>(-1);
}
}  // namespace Json
