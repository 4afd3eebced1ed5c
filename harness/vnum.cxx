// Records the behaviour of random number generators, normal deviates,
// eigendecompositions and numerical integration.
//
// Reads one case per line from standard input and writes one or more records
// per case to standard output. Only public interfaces of Especia are used.
#include <functional>
#include <limits>
#include <memory>
#include <stdexcept>

#include "decompose.h"
#include "deviates.h"
#include "integrator.h"
#include "profiles.h"
#include "json.h"
#include "random.h"

using namespace especia;
using std::string;
using std::valarray;
using std::vector;

static void
out (const vj::Obj &o)
{
  std::cout << o.done () << "\n";
}

// ---------------------------------------------------------------------------
// Random number generators
// ---------------------------------------------------------------------------
struct Generator
{
  virtual ~Generator () = default;
  virtual uint64_t rand () = 0;
  virtual double uniform () = 0;
  virtual std::shared_ptr<Generator> copy () const = 0;
};

template <class G> struct Held : Generator
{
  G g;
  explicit Held (const G &g) : g (g) {}
  uint64_t rand () override { return g.rand (); }
  double uniform () override { return g (); }
  std::shared_ptr<Generator> copy () const override { return std::make_shared<Held<G> > (*this); }
};

template <class G> static std::shared_ptr<Generator>
hold (const string &by, const vector<word64> &keys)
{
  if (by == "keys")
    return std::make_shared<Held<G> > (G (natural (keys.size ()), &keys[0]));
  return std::make_shared<Held<G> > (G (keys.at (0)));
}

template <class G> static std::shared_ptr<Generator>
hold_default ()
{
  return std::make_shared<Held<G> > (G ());
}

static std::shared_ptr<Generator>
generator (const string &gen, const string &by, const vector<word64> &keys)
{
  if (gen == "pcg_32")
    {
      if (by == "default")
        return hold_default<Pcg_32> ();
      return by == "pcg" ? std::make_shared<Held<Pcg_32> > (Pcg_32 (keys.at (0), keys.at (1)))
                         : std::make_shared<Held<Pcg_32> > (Pcg_32 (keys.at (0)));
    }
  if (gen == "melg19937_64")
    return hold<Melg19937_64> (by, keys);
  if (gen == "mt19937_64")
    return by == "default" ? hold_default<Mt19937_64> () : hold<Mt19937_64> (by, keys);
  if (gen == "mt19937_32")
    return by == "default" ? hold_default<Mt19937_32> () : hold<Mt19937_32> (by, keys);
  if (gen == "mt11213a_32")
    return by == "default" ? hold_default<Mt11213a_32> () : hold<Mt11213a_32> (by, keys);
  if (gen == "mt11213b_32")
    return by == "default" ? hold_default<Mt11213b_32> () : hold<Mt11213b_32> (by, keys);
  std::cerr << "unknown generator " << gen << std::endl;
  std::exit (3);
}

static vector<word64>
words (const vj::Value &v)
{
  vector<word64> r;
  for (const auto &x : v.a)
    r.push_back (x.word ());
  return r;
}

// a script of operations on generators named by handles
static void
rng (const vj::Value &c)
{
  std::map<string, std::shared_ptr<Generator> > gens;
  out (vj::Obj ().str ("e", "start"));
  for (const auto &s : c["script"].a)
    {
      const string e = s["e"].s;
      vj::Obj o;
      o.str ("e", e).str ("h", s["h"].s);
      if (e == "new")
        {
          const vector<word64> keys = words (s["keys"]);
          gens[s["h"].s] = generator (s["gen"].s, s["by"].s, keys);
          vector<string> k;
          for (auto w : keys)
            k.push_back (vj::word (w));
          o.str ("gen", s["gen"].s).str ("by", s["by"].s).raw ("keys", vj::list (k));
        }
      else if (e == "copy")
        {
          gens[s["h"].s] = gens.at (s["from"].s)->copy ();
          o.str ("from", s["from"].s);
        }
      else if (e == "rand")
        {
          vector<string> w;
          for (size_t i = 0; i < s["n"].nat (); ++i)
            w.push_back (vj::word (gens.at (s["h"].s)->rand ()));
          o.raw ("w", vj::list (w));
        }
      else if (e == "uni")
        {
          vector<double> y;
          for (size_t i = 0; i < s["n"].nat (); ++i)
            y.push_back (gens.at (s["h"].s)->uniform ());
          o.v ("y", y);
        }
      out (o);
    }
}

// ---------------------------------------------------------------------------
// Normal deviates
// ---------------------------------------------------------------------------
// a uniform deviate with a given stream
struct Given
{
  std::shared_ptr<vector<double> > u;
  std::shared_ptr<size_t> used;
  double operator() () const
  {
    if (*used >= u->size ())
      throw std::out_of_range ("exhausted");
    return (*u)[(*used)++];
  }
  explicit Given (word64) {}
  Given () = default;
};

// the deviates of a given uniform stream, and how much of it was used after each
static void
polar (const vj::Value &c)
{
  Given g;
  g.u = std::make_shared<vector<double> > ();
  g.used = std::make_shared<size_t> (0);
  for (const auto &x : c["u"].a)
    g.u->push_back (x.real ());
  const Normal_Deviate<Given> d (g);
  vector<double> y;
  vector<string> used;
  try
    {
      for (;;)
        {
          y.push_back (d ());
          used.push_back (vj::num (*g.used));
        }
    }
  catch (const std::out_of_range &)
    {
    }
  out (vj::Obj ().str ("e", "polar").v ("u", *g.u).v ("y", y).raw ("used", vj::list (used)));
}

// the deviates of a seeded generator together with the uniform stream of an equal one
template <class G> static void
seeded (const vj::Value &c, const string &name)
{
  const word64 seed = c["seed"].word ();
  const size_t n = c["n"].nat ();
  const Normal_Deviate<G> d (seed);
  const Normal_Deviate<G> d2{ G (seed) };
  const G g (seed);
  vector<double> y, y2, u;
  for (size_t i = 0; i < n; ++i)
    y.push_back (d ());
  for (size_t i = 0; i < n; ++i)
    y2.push_back (d2 ());
  for (size_t i = 0; i < 2 * n + 20; ++i)
    u.push_back (g ());
  out (vj::Obj ().str ("e", "normal").str ("gen", name).str ("seed", c["seed"].s).v ("u", u).v ("y", y).v ("y2", y2));
}

static void
normal (const vj::Value &c)
{
  const string g = c["gen"].s;
  if (g == "melg19937_64")
    seeded<Melg19937_64> (c, g);
  else if (g == "mt19937_64")
    seeded<Mt19937_64> (c, g);
  else if (g == "mt19937_32")
    seeded<Mt19937_32> (c, g);
  else
    seeded<Pcg_32> (c, "pcg_32");
}

// a script of operations on normal deviates named by handles
struct Normals
{
  virtual ~Normals () = default;
  virtual double draw () = 0;
  virtual std::shared_ptr<Normals> copy () const = 0;
};

template <class G> struct Held_Normal : Normals
{
  Normal_Deviate<G> d;
  explicit Held_Normal (word64 seed) : d (seed) {}
  explicit Held_Normal (const G &g) : d (g) {}
  double draw () override { return d (); }
  std::shared_ptr<Normals> copy () const override { return std::make_shared<Held_Normal<G> > (*this); }
};

// a normal deviate from a seed, or from a uniform deviate that was used before and is used afterwards
template <class G> static std::shared_ptr<Normals>
make_normal (word64 seed, size_t skip)
{
  if (skip == 0)
    return std::make_shared<Held_Normal<G> > (seed);
  const G g (seed);
  for (size_t i = 0; i < skip; ++i)
    g ();
  auto r = std::make_shared<Held_Normal<G> > (g);
  g ();
  return r;
}

static void
normals (const vj::Value &c)
{
  std::map<string, std::shared_ptr<Normals> > objs;
  out (vj::Obj ().str ("e", "start"));
  for (const auto &s : c["script"].a)
    {
      const string e = s["e"].s, h = s["h"].s;
      vj::Obj o;
      o.str ("e", e).str ("h", h);
      if (e == "new")
        {
          const string g = s["gen"].s;
          const word64 seed = s["seed"].word ();
          const size_t skip = s["skip"].nat ();
          objs[h] = g == "melg19937_64" ? make_normal<Melg19937_64> (seed, skip)
                    : g == "mt19937_64" ? make_normal<Mt19937_64> (seed, skip)
                    : g == "mt19937_32" ? make_normal<Mt19937_32> (seed, skip)
                                        : make_normal<Pcg_32> (seed, skip);
          o.str ("gen", g).str ("seed", s["seed"].s).n ("skip", skip);
        }
      else if (e == "copy")
        {
          objs[h] = objs.at (s["from"].s)->copy ();
          o.str ("from", s["from"].s);
        }
      else
        {
          vector<double> y;
          for (size_t i = 0; i < s["n"].nat (); ++i)
            y.push_back (objs.at (h)->draw ());
          o.v ("y", y);
        }
      out (o);
    }
}

// ---------------------------------------------------------------------------
// Eigendecomposition
// ---------------------------------------------------------------------------
template <class D> static void
decompose (const vj::Value &c)
{
  const size_t n = c["n"].nat ();
  const D d{ natural (n) };
  size_t k = 0;
  for (const auto &m : c["matrices"].a)
    {
      vector<double> A, Z (n * n, 7.0), w (n, 7.0);
      for (const auto &x : m.a)
        A.push_back (x.real ());
      const vector<double> A0 = A;
      const D fresh{ natural (n) };
      vector<double> Zf (n * n, 5.0), wf (n, 5.0);
      string error;
      try
        {
          d (&A[0], &Z[0], &w[0]);
          fresh (&A0[0], &Zf[0], &wf[0]);
        }
      catch (const std::exception &e)
        {
          error = e.what ();
        }
      out (vj::Obj ()
               .str ("e", "eigen")
               .str ("method", c["method"].s)
               .n ("n", n)
               .n ("k", k++)
               .v ("a", A0)
               .v ("after", A)
               .v ("z", Z)
               .v ("w", w)
               .v ("zf", Zf)
               .v ("wf", wf)
               .str ("error", error));
    }
}

static void
eigen (const vj::Value &c)
{
  const string m = c["method"].s;
  if (m == "d")
    decompose<D_Decompose> (c);
  else if (m == "r")
    decompose<R_Decompose> (c);
  else
    decompose<X_Decompose> (c);
}

// ---------------------------------------------------------------------------
// Integration
// ---------------------------------------------------------------------------
struct Term
{
  string k;
  vector<double> p;
};

static double
term (const Term &t, double x)
{
  const vector<double> &p = t.p;
  if (t.k == "pow") // a x^n
    {
      double y = p[0];
      for (int i = 0; i < int (p[1]); ++i)
        y *= x;
      return y;
    }
  if (t.k == "gauss")
    {
      const double z = (x - p[1]) / p[2];
      return p[0] * std::exp (-(z * z));
    }
  if (t.k == "lorentz")
    {
      const double z = (x - p[1]) / p[2];
      return p[0] / (1.0 + z * z);
    }
  if (t.k == "abs")
    return p[0] * std::abs (x - p[1]);
  if (t.k == "root")
    return p[0] * std::sqrt (std::abs (x - p[1]));
  if (t.k == "step")
    return x < p[1] ? p[0] : 0.0;
  if (t.k == "decay")
    return p[0] * std::exp (-std::abs (x) / p[1]);
  std::cerr << "unknown term " << t.k << std::endl;
  std::exit (3);
}

static Integrator<>::Formula
formula (const string &s)
{
  if (s == "13")
    return Integrator<>::Q13;
  if (s == "19")
    return Integrator<>::Q19;
  if (s == "27")
    return Integrator<>::Q27;
  return Integrator<>::Q41;
}

static vector<Term>
get_terms (const vj::Value &v)
{
  vector<Term> terms;
  for (const auto &t : v.a)
    {
      Term x;
      x.k = t["k"].s;
      for (const auto &p : t["p"].a)
        x.p.push_back (p.real ());
      terms.push_back (x);
    }
  return terms;
}

static string
put_terms (const vector<Term> &terms)
{
  vector<string> fs;
  for (const auto &t : terms)
    fs.push_back (vj::Obj ().str ("k", t.k).v ("p", t.p).done ());
  return vj::list (fs);
}

// The convolution of exp(-f) with g
static void
convolution (const vj::Value &c)
{
  const vector<Term> tf = get_terms (c["f"]), tg = get_terms (c["g"]);
  const auto sum = [] (const vector<Term> &t, double x) {
    double y = 0.0;
    for (const auto &k : t)
      y += term (k, x);
    return y;
  };
  const auto f = [&] (double x) -> double { return sum (tf, x); };
  const auto g = [&] (double x) -> double { return sum (tg, x); };
  const auto C = c.has ("p") ? Convolutor<Integrator<> > (Integrator<> (formula (c["p"].s), formula (c["q"].s))) : Convolutor<Integrator<> > ();
  vector<double> x, y;
  for (const auto &v : c["x"].a)
    {
      x.push_back (v.real ());
      y.push_back (C.convolute (f, g, x.back ()));
    }
  out (vj::Obj ()
           .str ("e", "integral")
           .str ("domain", "convolution")
           .str ("p", c.has ("p") ? c["p"].s : "19")
           .str ("q", c.has ("q") ? c["q"].s : "27")
           .raw ("f", put_terms (tf))
           .raw ("g", put_terms (tg))
           .v ("x", x)
           .v ("y", y));
}

static void
integral (const vj::Value &c)
{
  if (c["domain"].s == "convolution")
    return convolution (c);
  const vector<Term> terms = get_terms (c["f"]);
  double lo = HUGE_VAL, up = -HUGE_VAL;
  const auto f = [&] (double x) -> double {
    lo = std::min (lo, x);
    up = std::max (up, x);
    double y = 0.0;
    for (const auto &t : terms)
      y += term (t, x);
    return y;
  };
  const Integrator<> I = c.has ("p") ? Integrator<> (formula (c["p"].s), formula (c["q"].s)) : Integrator<> ();
  const string domain = c["domain"].s;
  const double a = c["a"].real (), b = c["b"].real (), goal = c["goal"].real ();
  vector<double> y;
  const size_t last = c["last"].nat ();
  for (size_t k = 0; k <= last; ++k)
    {
      if (domain == "finite")
        y.push_back (I.integrate (f, a, b, goal, natural (k)));
      else if (domain == "positive")
        y.push_back (I.integrate_positive_infinite (f, goal, natural (k)));
      else if (domain == "negative")
        y.push_back (I.integrate_negative_infinite (f, goal, natural (k)));
      else
        y.push_back (I.integrate_infinite (f, goal, natural (k)));
    }
  double def, expl;
  if (domain == "finite")
    {
      def = I.integrate (f, a, b);
      expl = I.integrate (f, a, b, 1.0e-6, 100);
    }
  else if (domain == "positive")
    {
      def = I.integrate_positive_infinite (f);
      expl = I.integrate_positive_infinite (f, 1.0e-6, 100);
    }
  else if (domain == "negative")
    {
      def = I.integrate_negative_infinite (f);
      expl = I.integrate_negative_infinite (f, 1.0e-6, 100);
    }
  else
    {
      def = I.integrate_infinite (f);
      expl = I.integrate_infinite (f, 1.0e-6, 100);
    }

  // the integrand's domain is that of the integral
  out (vj::Obj ()
           .str ("e", "integral")
           .str ("p", c.has ("p") ? c["p"].s : "19")
           .str ("q", c.has ("q") ? c["q"].s : "27")
           .str ("domain", domain)
           .r ("a", a)
           .r ("b", b)
           .r ("goal", goal)
           .raw ("f", put_terms (terms))
           .b ("exact", c.has ("exact") and c["exact"].b)
           .r ("lo", lo)
           .r ("up", up)
           .r ("default", def)
           .r ("explicit", expl)
           .v ("y", y));
}

int
main ()
{
  string line;
  while (std::getline (std::cin, line))
    {
      if (line.empty ())
        continue;
      const vj::Value c = vj::parse (line);
      const string op = c["op"].s;
      if (op == "rng")
        rng (c);
      else if (op == "polar")
        polar (c);
      else if (op == "normals")
        normals (c);
      else if (op == "normal")
        normal (c);
      else if (op == "eigen")
        eigen (c);
      else if (op == "integral")
        integral (c);
      else
        return 3;
    }
  return 0;
}
