// Records the behaviour of models, sections and profile functions.
//
// Reads one case per line from standard input and writes one record per case
// to standard output. Only public interfaces of Especia are used.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <thread>

#include "integrator.h"
#include "json.h"
#include "model.h"
#include "optimizer.h"
#include "profiles.h"
#include "section.h"

using namespace especia;
using std::string;
using std::valarray;
using std::vector;

// ---------------------------------------------------------------------------
// A schedule of the evaluations of profile functions in concurrent threads
// ---------------------------------------------------------------------------
struct Schedule
{
  std::mutex m;
  std::condition_variable cv;
  vector<size_t> order; // the thread that makes the next step
  size_t next = 0;
  bool active = false;
  bool timeout = false;
  size_t steps = 0;
};

static Schedule schedule;
static thread_local size_t thread_id = 0;
static thread_local bool scheduled = false;

static void
yield_point ()
{
  if (not scheduled)
    return;
  Schedule &s = schedule;
  std::unique_lock<std::mutex> l (s.m);
  s.steps++;
  const auto limit = std::chrono::steady_clock::now () + std::chrono::seconds (10);
  if (not s.cv.wait_until (l, limit, [&] { return s.timeout or s.next >= s.order.size () or s.order[s.next] == thread_id; }))
    s.timeout = true;
  if (s.next < s.order.size ())
    s.next++;
  s.cv.notify_all ();
}

// The thread has ended: its remaining steps are skipped
static void
leave ()
{
  Schedule &s = schedule;
  std::unique_lock<std::mutex> l (s.m);
  vector<size_t> rest;
  for (size_t i = s.next; i < s.order.size (); ++i)
    if (s.order[i] != thread_id)
      rest.push_back (s.order[i]);
  s.order = rest;
  s.next = 0;
  s.cv.notify_all ();
}

// A profile function whose evaluation is a step of the schedule
template <class F> class Gated : public F
{
public:
  Gated () = default;
  explicit Gated (const real q[]) : F (q) {}
  real operator() (const real &x) const
  {
    yield_point ();
    return F::operator() (x);
  }
};

// ---------------------------------------------------------------------------

template <class M>
static vector<double>
concurrent_costs (const M &model, const vector<valarray<double> > &xs, const vector<size_t> &order)
{
  vector<double> y (xs.size ());
  vector<std::thread> t;
  schedule.order = order;
  schedule.next = 0;
  schedule.timeout = false;
  schedule.steps = 0;
  const bool gated = not order.empty ();
  std::atomic<size_t> ready (0);
  for (size_t i = 0; i < xs.size (); ++i)
    t.emplace_back ([&, i] {
      thread_id = i;
      scheduled = gated;
      ready++;
      while (ready < xs.size ())
        std::this_thread::yield ();
      try
        {
          y[i] = model (&xs[i][0], xs[i].size ());
        }
      catch (std::exception &)
        {
          y[i] = NAN;
        }
      if (gated)
        leave ();
    });
  for (auto &q : t)
    q.join ();
  return y;
}

// Delegates to a model and checks the arguments of all calls
template <class M, class C> struct Watched
{
  const M *model;
  struct Log
  {
    std::mutex m;
    vector<vector<double> > x;
    vector<double> y;
  } *log;
  real operator() (const real x[], natural n) const
  {
    const double y = (*model) (x, n);
    std::lock_guard<std::mutex> l (log->m);
    log->x.push_back (vector<double> (x, x + n));
    log->y.push_back (y);
    return y;
  }
};

// Traces every generation
struct Traced
{
  vector<string> *lines;
  bool is_tracing (natural) const { return true; }
  void
  trace (natural g, real y, real a, real b) const
  {
    lines->push_back (vj::Obj ().n ("g", g).r ("y", y).r ("min", a).r ("max", b).done ());
  }
};

static string
lists (const vj::Value &c, const string &k, std::function<string (const vj::Value &)> f)
{
  vector<string> r;
  if (c.has (k))
    for (const auto &v : c[k].a)
      r.push_back (f (v));
  return vj::list (r);
}

template <class F>
static void
model (const vj::Value &c, const string &line)
{
  typedef Model<F> M;
  std::istringstream is (c["text"].s);
  std::ostringstream os;
  vj::Obj o;
  o.str ("e", "model").raw ("case", line);
  try
    {
      M m = M::parse (is, os);
      o.str ("error", "").str ("echo", os.str ());
      const size_t n = m.get_parameter_count ();
      o.n ("count", n);
      o.v ("x0", m.get_initial_parameter_values ());
      o.v ("d0", m.get_initial_local_step_sizes ());
      const auto k = m.get_constraint ();
      // arguments may be given as fractions of the intervals around the initial values
      const valarray<double> x0 = m.get_initial_parameter_values (), d0 = m.get_initial_local_step_sizes ();
      auto vec = [&] (const vj::Value &v) {
        valarray<double> x = v.reals ();
        valarray<double> r (n);
        for (size_t i = 0; i < n; ++i)
          r[i] = x0[i] + d0[i] * (x.size () > 0 ? x[i % x.size ()] : 0.0);
        return r;
      };
      o.raw ("costs", lists (c, "at", [&] (const vj::Value &v) {
               const valarray<double> x = vec (v);
               try
                 {
                   return "{\"x\":" + vj::reals (x) + ",\"y\":" + vj::real (m (&x[0], n)) + "}";
                 }
               catch (std::exception &)
                 {
                   return "{\"x\":" + vj::reals (x) + ",\"y\":\"error\"}";
                 }
             }));
      if (c.has ("edges"))
        {
          // the bounds, one coordinate at a time: at, below and above either bound
          vector<string> r;
          valarray<double> lo = x0 - d0, up = x0 + d0;
          for (size_t i = 0; i < n; ++i)
            {
              if (c.has ("lo"))
                lo[i] = c["lo"].a[i].real ();
              if (c.has ("up"))
                up[i] = c["up"].a[i].real ();
            }
          for (size_t i = 0; i < n; ++i)
            for (int j = 0; j < 6; ++j)
              {
                valarray<double> x = x0;
                x[i] = j == 0   ? lo[i]
                       : j == 1 ? std::nextafter (lo[i], -HUGE_VAL)
                       : j == 2 ? std::nextafter (lo[i], HUGE_VAL)
                       : j == 3 ? up[i]
                       : j == 4 ? std::nextafter (up[i], -HUGE_VAL)
                                : std::nextafter (up[i], HUGE_VAL);
                r.push_back (vj::Obj ().v ("x", x).b ("violated", k.is_violated (&x[0], n)).r ("cost", k.cost (&x[0], n)).done ());
              }
          o.v ("lo", lo).v ("up", up).raw ("probes", vj::list (r));
        }
      if (c.has ("sets"))
        o.raw ("tables", lists (c, "sets", [&] (const vj::Value &v) {
                 const valarray<double> x = vec (v["x"]);
                 valarray<double> u (n), uu = v["u"].reals ();
                 for (size_t i = 0; i < n; ++i)
                   u[i] = uu[i % uu.size ()];
                 std::ostringstream p;
                 string error;
                 double y = NAN;
                 try
                   {
                     m.set (&x[0], &u[0]);
                     m.put (p);
                     y = m (&x[0], n);
                   }
                 catch (std::exception &e)
                   {
                     error = e.what ();
                   }
                 return vj::Obj ().v ("x", x).v ("u", u).r ("y", y).str ("text", p.str ()).str ("error", error).done ();
               }));
      if (c.has ("put"))
        {
          std::ostringstream p;
          m.put (p);
          o.str ("initial", p.str ());
        }
      if (c.has ("concurrent"))
        {
          // costs computed by concurrent threads under prescribed schedules, and one after the other
          vector<valarray<double> > xs;
          for (const auto &v : c["concurrent"].a)
            xs.push_back (vec (v));
          vector<double> alone;
          for (const auto &x : xs)
            alone.push_back (m (&x[0], n));
          o.v ("alone", alone);
          vector<string> r;
          auto run = [&] (const vector<size_t> &order) {
            const vector<double> y = concurrent_costs (m, xs, order);
            r.push_back (vj::Obj ().v ("y", y).b ("timeout", schedule.timeout).n ("steps", schedule.steps).n ("gates", order.size ()).done ());
          };
          if (c.has ("schedules"))
            for (const auto &s : c["schedules"].a)
              {
                vector<size_t> order;
                for (const auto &v : s.a)
                  order.push_back (v.nat ());
                run (order);
              }
          if (c.has ("stress"))
            for (size_t i = 0; i < c["stress"].nat (); ++i)
              run (vector<size_t> ());
          o.raw ("together", vj::list (r));
        }
      if (c.has ("search"))
        {
          const vj::Value &s = c["search"];
          typename Watched<M, int>::Log log;
          const Watched<M, int> w{ &m, &log };
          string stage = "configure";
          vector<string> traced;
          std::ostringstream p;
          try
            {
          const Optimizer q = Optimizer::Builder ()
                                  .with_problem_dimension (n)
                                  .with_parent_number (s["mu"].nat ())
                                  .with_population_size (s["lambda"].nat ())
                                  .with_accuracy_goal (s["acc"].real ())
                                  .with_stop_generation (s["stop"].nat ())
                                  .with_random_seed (s["seed"].word ())
                                  .build ();
          stage = "search";
          const Optimizer::Result t = q.minimize (w, x0, d0, s["s"].real (), k, Traced{ &traced });
          vector<string> calls;
          for (size_t i = 0; i < log.x.size (); ++i)
            calls.push_back ("{\"x\":" + vj::reals (log.x[i]) + ",\"y\":" + vj::real (log.y[i]) + "}");
          o.raw ("found", vj::Obj ().v ("x", t.get_parameter_values ()).v ("z", t.get_parameter_uncertainties ()).r ("y", t.get_fitness ()).n ("g", t.get_generation_number ()).b ("opt", t.is_optimized ()).b ("und", t.is_underflow ()).done ());
          if (not c.has ("nocalls"))
            o.raw ("calls", vj::list (calls));
          if (c.has ("report"))
            {
              stage = "report";
              m.set (&t.get_parameter_values ()[0], &t.get_parameter_uncertainties ()[0]);
              m.put (p);
              o.str ("report", p.str ()).raw ("traced", vj::list (traced));
            }
          stage = "done";
            }
          catch (std::logic_error &e)
            {
              o.str ("what", e.what ()).n ("thrown", 8);
            }
          catch (std::runtime_error &e)
            {
              o.str ("what", e.what ()).n ("thrown", 16);
            }
          o.str ("stage", stage);
        }
    }
  catch (std::exception &e)
    {
      o.str ("error", e.what ()[0] ? e.what () : "error").str ("echo", os.str ());
    }
  o.b ("fail", is.fail ());
  std::cout << o.done () << "\n";
}

// ---------------------------------------------------------------------------

// Optical depth: a sum of Gaussian components plus a linear term
struct Depth
{
  struct Component
  {
    double a, c, b;
  };
  vector<Component> g;
  double a0 = 0.0, a1 = 0.0;
  explicit Depth (const vj::Value &v)
  {
    for (const auto &k : v["g"].a)
      g.push_back (Component{ k.a[0].real (), k.a[1].real (), k.a[2].real () });
    if (v.has ("a0"))
      a0 = v["a0"].real ();
    if (v.has ("a1"))
      a1 = v["a1"].real ();
  }
  real operator() (const real &x) const
  {
    double t = a0 + a1 * x;
    for (const auto &k : g)
      t += k.a * std::exp (-sq ((x - k.c) / k.b));
    return t;
  }
};

static string
outline (const Section &s)
{
  return vj::Obj ()
      .n ("n", s.data_count ())
      .n ("valid", s.valid_data_count ())
      .r ("lower", s.lower_bound ())
      .r ("upper", s.upper_bound ())
      .r ("center", s.center ())
      .r ("width", s.width ())
      .done ();
}

static string
columns (const Section &s)
{
  std::ostringstream os;
  os << s;
  return os.str ();
}

// Steps applied to one section, or to a sequence of sections
static void
section (const vj::Value &c, const string &line)
{
  vj::Obj o;
  o.str ("e", "section").raw ("case", line);
  Section s;
  std::istringstream is;
  vector<string> r;
  for (const auto &k : c["steps"].a)
    {
      const string f = k["do"].s;
      vj::Obj q;
      q.str ("do", f);
      string error;
      try
        {
          if (f == "text")
            {
              is.clear ();
              is.str (k["text"].s);
            }
          else if (f == "get")
            {
              if (k.has ("a"))
                s.get (is, k["a"].real (), k["b"].real ());
              else
                is >> s;
              q.b ("failed", is.fail ()).b ("bad", is.bad ()).b ("eof", is.eof ()).raw ("s", outline (s)).str ("text", is.fail () ? "" : columns (s));
            }
          else if (f == "arrays")
            {
              const valarray<double> x = k["x"].reals (), y = k["y"].reals (), u = k["u"].reals ();
              s = Section (x.size (), &x[0], &y[0], &u[0]);
              q.raw ("s", outline (s));
            }
          else if (f == "mask")
            {
              s.mask (k["a"].real (), k["b"].real ());
              q.raw ("s", outline (s)).str ("text", columns (s));
            }
          else if (f == "apply")
            {
              s.apply (k["m"].nat (), k["r"].real (), Depth (k["tau"]));
              q.raw ("s", outline (s)).str ("text", columns (s)).r ("cost", s.cost ());
            }
          else if (f == "cost")
            {
              const string before = columns (s);
              q.r ("cost", s.cost (Depth (k["tau"]), k["r"].real (), k["m"].nat ()));
              q.b ("unchanged", before == columns (s));
            }
          else if (f == "put")
            {
              std::ostringstream os;
              if (k.has ("a"))
                s.put (os, k["a"].real (), k["b"].real ());
              else
                s.put (os);
              q.str ("text", os.str ());
            }
          else if (f == "all")
            {
              // reads as many sections as there are, writes them and reads what was written
              vector<Section> all, again;
              is >> all;
              std::ostringstream os, os2;
              if (not all.empty ())
                os << all;
              std::istringstream is2 (os.str ());
              is2 >> again;
              if (not again.empty ())
                os2 << again;
              q.n ("count", all.size ()).b ("bad", is.bad ()).str ("text", os.str ()).n ("again", again.size ()).str ("text2", os2.str ());
            }
          else
            {
              std::cerr << "unknown step " << f << std::endl;
              std::exit (3);
            }
        }
      catch (std::exception &e)
        {
          error = e.what ();
        }
      q.str ("error", error);
      r.push_back (q.done ());
    }
  std::cout << o.raw ("out", vj::list (r)).done () << "\n";
}

// ---------------------------------------------------------------------------

template <class F>
static void
profile (const vj::Value &c, const string &line)
{
  const valarray<double> q = c["q"].reals ();
  const F f (&q[0]);
  const valarray<double> u = c["u"].reals (); // abscissas in units of w around the center
  const double w = c["w"].real ();
  vector<double> x, y;
  for (size_t i = 0; i < u.size (); ++i)
    {
      x.push_back (f.center () + w * u[i]);
      y.push_back (f (x.back ()));
    }
  vj::Obj o;
  o.str ("e", "profile").raw ("case", line).r ("center", f.center ()).r ("z", f.redshift_factor ()).n ("count", F::parameter_count ());
  o.v ("x", x).v ("y", y);
  if (c.has ("ew"))
    {
      const Equivalent_Width_Calculator<Integrator<real> > e;
      o.r ("ew", e.calculate (f, c["ew"].real ()));
    }
  std::cout << o.done () << "\n";
}

template <class F>
static void
superposition (const vj::Value &c, const string &line)
{
  const size_t m = F::parameter_count ();
  const size_t n = c["lines"].nat ();
  const valarray<double> q = c["q"].reals (), x = c["x"].reals ();
  const Superposition<F> s (n, &q[0]);
  vector<double> y;
  vector<string> each;
  for (size_t i = 0; i < x.size (); ++i)
    y.push_back (s (x[i]));
  for (size_t k = 0; k < n; ++k)
    {
      const F f (&q[k * m]);
      vector<double> v;
      for (size_t i = 0; i < x.size (); ++i)
        v.push_back (f (x[i]));
      each.push_back (vj::reals (v));
    }
  std::cout << vj::Obj ().str ("e", "sum").raw ("case", line).v ("y", y).raw ("each", vj::list (each)).done () << "\n";
}

template <class A>
static void
approximation (const vj::Value &c, const string &line)
{
  const A f (c["b"].real (), c["d"].real ());
  const valarray<double> x = c["x"].reals ();
  vector<double> y;
  for (size_t i = 0; i < x.size (); ++i)
    y.push_back (f (x[i]));
  std::cout << vj::Obj ().str ("e", "voigt").raw ("case", line).v ("y", y).done () << "\n";
}

template <class F>
static void
dispatch (const vj::Value &c, const string &line)
{
  const string op = c["op"].s;
  if (op == "model")
    {
      if (c.has ("gated"))
        model<Gated<F> > (c, line);
      else
        model<F> (c, line);
    }
  else if (op == "profile")
    profile<F> (c, line);
  else if (op == "sum")
    superposition<F> (c, line);
  else
    {
      std::cerr << "unknown operation " << op << std::endl;
      std::exit (3);
    }
}

int
main ()
{
  string line;
  while (std::getline (std::cin, line))
    {
      if (line.empty ())
        continue;
      const vj::Value c = vj::parse (line);
      const string op = c["op"].s;
      const string fn = c.has ("fn") ? c["fn"].s : "";
      if (op == "section")
        section (c, line);
      else if (op == "voigt")
        fn == "pseudo" ? approximation<Pseudo_Voigt> (c, line) : approximation<Extended_Pseudo_Voigt> (c, line);
      else if (fn == "doppler")
        dispatch<Intergalactic_Doppler> (c, line);
      else if (fn == "voigt")
        dispatch<Intergalactic_Voigt<Pseudo_Voigt> > (c, line);
      else if (fn == "xvoigt")
        dispatch<Intergalactic_Voigt<Extended_Pseudo_Voigt> > (c, line);
      else if (fn == "mm")
        dispatch<Many_Multiplet> (c, line);
      else
        {
          std::cerr << "unknown operation " << op << " " << fn << std::endl;
          return 3;
        }
      std::cout.flush ();
    }
  return 0;
}
