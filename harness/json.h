// A minimal JSON reader and writer for the harnesses.
#ifndef VERIF_JSON_H
#define VERIF_JSON_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <string>
#include <valarray>
#include <vector>

namespace vj
{
struct Value
{
  enum Kind { null, boolean, number, string, array, object } kind = null;
  bool b = false;
  std::string s; // the string, or the text of the number
  std::vector<Value> a;
  std::map<std::string, Value> o;

  bool has (const std::string &k) const { return o.count (k) > 0 and o.at (k).kind != null; }
  const Value &operator[] (const std::string &k) const
  {
    auto i = o.find (k);
    if (i == o.end ()) { std::cerr << "missing field " << k << std::endl; std::exit (3); }
    return i->second;
  }
  double real () const
  {
    if (s == "inf") return HUGE_VAL;
    if (s == "-inf") return -HUGE_VAL;
    if (s == "nan") return NAN;
    return std::strtod (s.c_str (), nullptr);
  }
  uint64_t word () const { return std::strtoull (s.c_str (), nullptr, 0); }
  size_t nat () const { return size_t (std::strtoull (s.c_str (), nullptr, 0)); }
  std::valarray<double> reals () const
  {
    std::valarray<double> r (a.size ());
    for (size_t i = 0; i < a.size (); ++i) r[i] = a[i].real ();
    return r;
  }
};

struct Parser
{
  const std::string &t;
  size_t i = 0;
  explicit Parser (const std::string &text) : t (text) {}
  void fail () { std::cerr << "bad JSON at " << i << ": " << t.substr (0, 200) << std::endl; std::exit (3); }
  void ws () { while (i < t.size () and isspace (t[i])) ++i; }
  Value parse ()
  {
    ws ();
    Value v;
    if (i >= t.size ()) fail ();
    const char c = t[i];
    if (c == '{')
      {
        v.kind = Value::object;
        ++i; ws ();
        if (t[i] == '}') { ++i; return v; }
        for (;;)
          {
            ws ();
            Value k = parse ();
            ws ();
            if (t[i++] != ':') fail ();
            v.o[k.s] = parse ();
            ws ();
            if (t[i] == ',') { ++i; continue; }
            if (t[i] == '}') { ++i; return v; }
            fail ();
          }
      }
    if (c == '[')
      {
        v.kind = Value::array;
        ++i; ws ();
        if (t[i] == ']') { ++i; return v; }
        for (;;)
          {
            v.a.push_back (parse ());
            ws ();
            if (t[i] == ',') { ++i; continue; }
            if (t[i] == ']') { ++i; return v; }
            fail ();
          }
      }
    if (c == '"')
      {
        v.kind = Value::string;
        for (++i; i < t.size () and t[i] != '"'; ++i)
          {
            if (t[i] != '\\') { v.s += t[i]; continue; }
            ++i;
            switch (t[i])
              {
              case 'n': v.s += '\n'; break;
              case 't': v.s += '\t'; break;
              case 'r': v.s += '\r'; break;
              case 'b': v.s += '\b'; break;
              case 'f': v.s += '\f'; break;
              case 'u': v.s += char (std::strtol (t.substr (i + 1, 4).c_str (), nullptr, 16)); i += 4; break;
              default: v.s += t[i];
              }
          }
        ++i;
        return v;
      }
    if (t.compare (i, 4, "true") == 0) { v.kind = Value::boolean; v.b = true; i += 4; return v; }
    if (t.compare (i, 5, "false") == 0) { v.kind = Value::boolean; i += 5; return v; }
    if (t.compare (i, 4, "null") == 0) { i += 4; return v; }
    v.kind = Value::number;
    while (i < t.size () and (isalnum (t[i]) or t[i] == '+' or t[i] == '-' or t[i] == '.')) v.s += t[i++];
    if (v.s.empty ()) fail ();
    return v;
  }
};

inline Value parse (const std::string &s) { Parser p (s); return p.parse (); }

// Writing: reals as decimal strings that restore the same bits
inline std::string q (const std::string &s)
{
  std::string r = "\"";
  for (char c : s)
    {
      if (c == '"' or c == '\\') { r += '\\'; r += c; }
      else if (c == '\n') r += "\\n";
      else if (c == '\t') r += "\\t";
      else if ((unsigned char) c < 32) { char b[8]; std::snprintf (b, 8, "\\u%04x", c); r += b; }
      else r += c;
    }
  return r + "\"";
}
inline std::string real (double x)
{
  char b[40];
  if (std::isnan (x)) return "\"nan\"";
  if (std::isinf (x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
  std::snprintf (b, sizeof b, "\"%.17g\"", x);
  return b;
}
inline std::string word (uint64_t w) { char b[24]; std::snprintf (b, sizeof b, "\"0x%llx\"", (unsigned long long) w); return b; }
template <class V> std::string reals (const V &v)
{
  std::string r = "[";
  for (size_t i = 0; i < v.size (); ++i) { if (i) r += ","; r += real (v[i]); }
  return r + "]";
}
inline std::string boolean (bool b) { return b ? "true" : "false"; }
inline std::string num (size_t n) { return std::to_string (n); }

class Obj
{
public:
  Obj &raw (const std::string &k, const std::string &v)
  {
    if (s.size () > 1) s += ",";
    s += q (k) + ":" + v;
    return *this;
  }
  Obj &str (const std::string &k, const std::string &v) { return raw (k, q (v)); }
  Obj &r (const std::string &k, double v) { return raw (k, real (v)); }
  Obj &n (const std::string &k, size_t v) { return raw (k, num (v)); }
  Obj &b (const std::string &k, bool v) { return raw (k, boolean (v)); }
  template <class V> Obj &v (const std::string &k, const V &x) { return raw (k, reals (x)); }
  std::string done () const { return s + "}"; }

private:
  std::string s = "{";
};
inline std::string list (const std::vector<std::string> &x)
{
  std::string r = "[";
  for (size_t i = 0; i < x.size (); ++i) { if (i) r += ","; r += x[i]; }
  return r + "]";
}
} // namespace vj
#endif
