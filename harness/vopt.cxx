// Records the behaviour of the optimizer.
//
// Reads one case per line from standard input and writes one or more records
// per case to standard output. Only public interfaces of Especia are used.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <stdexcept>
#include <thread>

#include "deviates.h"
#include "json.h"
#include "optimizer.h"
#include "random.h"

using namespace especia;
using std::string;
using std::valarray;
using std::vector;

typedef std::function<double (const double[], size_t)> Function;

static double
quad (const double x[], size_t n, const valarray<double> &h, const valarray<double> &c)
{
  double s = 0.0;
  for (size_t i = 0; i < n; ++i)
    {
      const double t = x[i] - (i < c.size () ? c[i] : 0.0);
      s += 0.5 * (i < h.size () ? h[i] : 1.0) * t * t;
    }
  return s;
}

static Function
base_function (const vj::Value &c)
{
  const string name = c["f"].s;
  const valarray<double> h = c.has ("h") ? c["h"].reals () : valarray<double> ();
  const valarray<double> o = c.has ("c") ? c["c"].reals () : valarray<double> ();

  if (name == "quad")
    return [h, o] (const double x[], size_t n) { return quad (x, n, h, o); };
  if (name == "coupled") // (sum x - c)^2 in addition
    return [h, o] (const double x[], size_t n) {
      double s = 0.0, a = quad (x, n, h, o);
      for (size_t i = 0; i < n; ++i)
        s += x[i];
      return a + 3.0 * s * s;
    };
  if (name == "rosenbrock")
    return [] (const double x[], size_t n) {
      double s = 0.0;
      for (size_t i = 0; i + 1 < n; ++i)
        {
          const double a = x[i] * x[i] - x[i + 1], b = x[i] - 1.0;
          s += 100.0 * a * a + b * b;
        }
      if (n == 1)
        s = (x[0] - 1.0) * (x[0] - 1.0);
      return s;
    };
  if (name == "rough") // multimodal
    return [h, o] (const double x[], size_t n) {
      double s = quad (x, n, h, o);
      for (size_t i = 0; i < n; ++i)
        s += 0.3 * std::sin (5.0 * x[i] + double (i));
      return s;
    };
  if (name == "linear")
    return [h] (const double x[], size_t n) {
      double s = 0.0;
      for (size_t i = 0; i < n; ++i)
        s += (i < h.size () ? h[i] : 1.0) * x[i];
      return s;
    };
  if (name == "const")
    return [] (const double[], size_t) { return 7.0; };
  if (name == "coarse") // plateaus that cover several individuals
    return [h, o] (const double x[], size_t n) { return std::floor (0.25 * quad (x, n, valarray<double> (), o)); };
  if (name == "steps") // plateaus
    return [h, o] (const double x[], size_t n) { return std::floor (quad (x, n, h, o)); };
  if (name == "abs")
    return [h, o] (const double x[], size_t n) {
      double s = 0.0;
      for (size_t i = 0; i < n; ++i)
        s += std::sqrt (std::abs (x[i] - (i < o.size () ? o[i] : 0.0)));
      return s;
    };
  std::cerr << "unknown function " << name << std::endl;
  std::exit (3);
}

static Function
function (const vj::Value &c)
{
  Function f = base_function (c);
  const string t = c.has ("t") ? c["t"].s : "id";
  if (t == "id")
    return f;
  if (t == "neg")
    return [f] (const double x[], size_t n) { return -f (x, n); };
  if (t == "exp")
    return [f] (const double x[], size_t n) { return std::exp (f (x, n) * 1.0e-2); };
  if (t == "affine")
    return [f] (const double x[], size_t n) { return 8.0 * f (x, n) + 1024.0; };
  if (t == "cube")
    return [f] (const double x[], size_t n) { const double y = f (x, n); return y * y * y; };
  // exact for the values of interest
  if (t == "huge" or t == "large" or t == "small" or t == "tiny")
    {
      const int e = t == "huge" ? 700 : t == "large" ? 60 : t == "small" ? -60 : -700;
      return [f, e] (const double x[], size_t n) { return std::ldexp (f (x, n), e); };
    }
  if (t == "shift" or t == "sink") // exact for integral values
    {
      const double o = t == "shift" ? 4503599627370496.0 : -4503599627370496.0;
      return [f, o] (const double x[], size_t n) { return f (x, n) + o; };
    }
  if (t == "asinh")
    return [f] (const double x[], size_t n) { return std::asinh (f (x, n)); };
  std::cerr << "unknown transformation " << t << std::endl;
  std::exit (3);
}

struct Call
{
  vector<double> x;
  double y;
  bool returned;
};

// The state shared by the objective function objects: logs and gates calls.
struct Shared
{
  std::mutex m;
  std::condition_variable cv;
  vector<Call> calls;
  vector<size_t> starts, ends; // order of starts and ends (indexes of calls)
  size_t running = 0, max_running = 0;
  size_t fail_at = 0; // the number of the call that throws
  bool logging = true;
  size_t gated = 0;         // number of first calls gated as groups
  vector<size_t> order;     // the order in which the calls of a group return, by rank of their value
  size_t group = 0;         // group size
  vector<size_t> done;      // per group: number returned
  bool timeout = false;
};

static std::atomic<int> strikes (0); // runs in which a group did not assemble

struct Objective
{
  Function f;
  Shared *s;

  // An implementation need not evaluate a whole group at the same time. When a
  // group does not assemble, the rest of the run is free; after two such runs
  // in one process no further run is held up.
  static void missed (Shared &h)
  {
    if (not h.timeout)
      strikes++;
    h.timeout = true;
    h.cv.notify_all ();
  }

  real operator() (const real x[], natural n) const
  {
    Shared &h = *s;
    size_t id;
    {
      std::unique_lock<std::mutex> l (h.m);
      id = h.calls.size ();
      h.calls.push_back (Call{ vector<double> (x, x + n), 0.0, false });
      h.starts.push_back (id);
      h.running++;
      h.max_running = std::max (h.max_running, h.running);
      h.cv.notify_all ();
    }
    const double y = f (x, n);
    {
      std::unique_lock<std::mutex> l (h.m);
      h.calls[id].y = y;
      if (h.group > 0 and id < h.gated and not h.timeout and strikes < 2)
        {
          // wait until the whole group has started, then return in the prescribed order
          const size_t g = id / h.group;
          const auto limit = std::chrono::steady_clock::now () + std::chrono::seconds (4);
          if (not h.cv.wait_until (l, limit, [&] { return h.timeout or h.calls.size () >= (g + 1) * h.group; }))
            missed (h);
          // the rank of this call by its arguments (independent of the order of starts)
          size_t rank = 0;
          for (size_t i = g * h.group; i < std::min (h.calls.size (), (g + 1) * h.group); ++i)
            if (h.calls[i].x < h.calls[id].x)
              ++rank;
          size_t turn = 0;
          for (size_t i = 0; i < h.order.size (); ++i)
            if (h.order[i] == rank)
              turn = i;
          if (h.done.size () <= g)
            h.done.resize (g + 1, 0);
          if (not h.cv.wait_until (l, limit, [&] { return h.timeout or h.done[g] >= turn; }))
            missed (h);
          h.done[g]++;
        }
      h.calls[id].returned = true;
      h.ends.push_back (id);
      h.running--;
      h.cv.notify_all ();
      if (h.fail_at > 0 and id + 1 == h.fail_at)
        throw std::runtime_error ("objective failed");
    }
    if (h.group > 0)
      // let the returning thread win the race to store its value
      std::this_thread::sleep_for (std::chrono::microseconds (200));
    return y;
  }
};

struct Bounds
{
  valarray<double> lo, up;
  bool active;
  std::atomic<size_t> *count;

  bool is_violated (const real x[], natural n) const
  {
    if (active)
      for (natural i = 0; i < n; ++i)
        if (x[i] < lo[i] or x[i] > up[i])
          return true;
    return false;
  }
  real cost (const real[], natural) const { return 0.0; }
};

// A constraint that also contributes to the cost
struct Penalty : Bounds
{
  double weight = 0.0;
  real cost (const real x[], natural n) const
  {
    double s = 0.0;
    for (natural i = 0; i < n; ++i)
      s += std::abs (x[i]);
    return weight * s;
  }
};

struct Trace
{
  natural modulus;
  vector<string> *lines;
  bool is_tracing (natural g) const { return modulus > 0 and g % modulus == 0; }
  void trace (natural g, real y, real a, real b) const
  {
    lines->push_back ("[" + vj::num (g) + "," + vj::real (y) + "," + vj::real (a) + "," + vj::real (b) + "]");
  }
};

static string
state (const Optimizer::Result &r)
{
  return vj::Obj ()
      .n ("g", r.get_generation_number ())
      .v ("x", r.get_parameter_values ())
      .r ("s", r.get_global_step_size ())
      .v ("d", r.get_local_step_sizes ())
      .v ("B", r.get_rotation_matrix ())
      .v ("C", r.get_covariance_matrix ())
      .v ("ps", r.get_step_size_cumulation_path ())
      .v ("pc", r.get_distribution_cumulation_path ())
      .v ("z", r.get_parameter_uncertainties ())
      .r ("y", r.get_fitness ())
      .b ("opt", r.is_optimized ())
      .b ("und", r.is_underflow ())
      .done ();
}

static string
call (const Call &c)
{
  return "{\"x\":" + vj::reals (c.x) + ",\"y\":" + vj::real (c.y) + "}";
}

static string
calls (const Shared &h, size_t from, size_t to)
{
  vector<string> r;
  for (size_t i = from; i < to and i < h.calls.size (); ++i)
    r.push_back (call (h.calls[i]));
  return vj::list (r);
}

struct Run
{
  string result; // the state
  string error;
  size_t g = 0;
  bool opt = false, und = false;
  valarray<double> x;
};

// Applies one configuration call; returns true if it is refused
static bool
apply_call (Optimizer::Builder &b, const vj::Value &k)
{
    const string f = k.a[0].s;
    const string v = k.a.size () > 1 ? k.a[1].s : "";
    const bool dflt = v == "default";
    const natural m = natural (std::strtoull (v.c_str (), nullptr, 0));
    bool t = false;
    try
      {
        if (f == "n")
          dflt ? b.with_problem_dimension () : b.with_problem_dimension (m);
        else if (f == "mu")
          dflt ? b.with_parent_number () : b.with_parent_number (m);
        else if (f == "lambda")
          b.with_population_size (m);
        else if (f == "mod")
          dflt ? b.with_covariance_update_modulus () : b.with_covariance_update_modulus (m);
        else if (f == "acc")
          dflt ? b.with_accuracy_goal () : b.with_accuracy_goal (std::strtod (v.c_str (), nullptr));
        else if (f == "seed")
          dflt ? b.with_random_seed () : b.with_random_seed (std::strtoull (v.c_str (), nullptr, 0));
        else if (f == "stop")
          dflt ? b.with_stop_generation () : b.with_stop_generation (m);
        else if (f == "defaults")
          b.with_defaults ();
        else if (f == "build")
          b.build ();
        else
          {
            std::cerr << "unknown call " << f << std::endl;
            std::exit (3);
          }
      }
    catch (std::exception &)
      {
        t = true;
      }
    return t;
}

static Run
run (const vj::Value &c, natural stop, Shared &h, vector<string> *lines)
{
  const natural n = c["n"].nat ();
  Optimizer::Builder b;
  if (c.has ("pre"))
    for (const auto &k : c["pre"].a)
      apply_call (b, k);
  b.with_problem_dimension (n)
      .with_parent_number (c["mu"].nat ())
      .with_population_size (c["lambda"].nat ())
      .with_covariance_update_modulus (c.has ("mod") ? c["mod"].nat () : 1)
      .with_accuracy_goal (c["acc"].real ())
      .with_random_seed (c["seed"].word ())
      .with_stop_generation (stop);
  const Optimizer o = b.build ();
  if (c.has ("post")) // must not affect the optimizer that has been built
    for (const auto &k : c["post"].a)
      apply_call (b, k);
  Objective f{ function (c), &h };
  const bool max = c.has ("dir") and c["dir"].s == "max";
  Penalty k;
  k.active = c.has ("lo");
  if (k.active)
    {
      k.lo.resize (n);
      k.up.resize (n);
      k.lo = c["lo"].reals ();
      k.up = c["up"].reals ();
    }
  if (c.has ("penalty"))
    k.weight = c["penalty"].real ();
  const valarray<double> x = c["x"].reals (), d = c["d"].reals ();
  const double s = c["s"].real ();
  Run r;
  try
    {
      auto go = [&] () -> Optimizer::Result {
        if (c.has ("plain"))
          return max ? o.maximize (f, x, d, s) : o.minimize (f, x, d, s);
        const Trace t{ c.has ("trace") ? c["trace"].nat () : 0, lines };
        return max ? o.maximize (f, x, d, s, k, t) : o.minimize (f, x, d, s, k, t);
      };
      const Optimizer::Result q = go ();
      r.result = state (q);
      r.x.resize (n);
      r.x = q.get_parameter_values ();
      r.g = q.get_generation_number ();
      r.opt = q.is_optimized ();
      r.und = q.is_underflow ();
    }
  catch (std::exception &e)
    {
      r.error = e.what ();
    }
  return r;
}

static void
header (const vj::Value &c, const string &raw, size_t deviates)
{
  Normal_Deviate<Melg19937_64> dev (c["seed"].word ());
  vector<double> z (deviates);
  for (auto &v : z)
    v = dev ();
  std::cout << vj::Obj ().str ("e", "run").raw ("case", raw).v ("dev", z).done () << "\n";
}

static string
settings (const Optimizer::Builder &b)
{
  return vj::Obj ()
      .n ("n", b.get_problem_dimension ())
      .n ("mu", b.get_parent_number ())
      .n ("lambda", b.get_population_size ())
      .n ("mod", b.get_covariance_update_modulus ())
      .r ("acc", b.get_accuracy_goal ())
      .raw ("seed", vj::word (b.get_random_seed ()))
      .n ("stop", b.get_stop_generation ())
      .v ("w", b.get_weights ())
      .r ("cs", b.get_step_size_cumulation_rate ())
      .r ("cc", b.get_distribution_cumulation_rate ())
      .r ("r1", b.get_rank_1_covariance_matrix_adaption_rate ())
      .r ("rm", b.get_rank_m_covariance_matrix_adaption_rate ())
      .r ("damp", b.get_step_size_damping ())
      .done ();
}

// Applies a sequence of configuration calls and records the settings after each of them
static void
builder (const vj::Value &c, const string &line)
{
  Optimizer::Builder b;
  vector<string> steps;
  steps.push_back (settings (b));
  vector<string> threw;
  for (const auto &k : c["calls"].a)
    {
      const bool t = apply_call (b, k);
      threw.push_back (vj::boolean (t));
      steps.push_back (settings (b));
    }
  std::cout << vj::Obj ().str ("e", "builder").raw ("calls", "[" + [&] {
    string r;
    for (const auto &k : c["calls"].a)
      {
        if (not r.empty ())
          r += ",";
        r += "[" + vj::q (k.a[0].s) + "," + vj::q (k.a.size () > 1 ? k.a[1].s : "") + "]";
      }
    return r;
  }() + "]").raw ("steps", vj::list (steps)).raw ("threw", vj::list (threw)).done () << "\n";
}

int
main ()
{
  string line;
  while (std::getline (std::cin, line))
    {
      if (line.empty ())
        continue;
      const vj::Value c = vj::parse (line);
      const string op = c["op"].s;
      const size_t n = c.has ("n") ? c["n"].nat () : 0;
      const size_t lambda = c.has ("lambda") ? c["lambda"].nat () : 0;

      if (op == "builder")
        builder (c, line);
      else if (op == "steps")
        {
          // The states after generations first, first + 1, ..., last (prefix runs), with the
          // individuals of each generation.
          const size_t first = c["first"].nat (), last = c["last"].nat ();
          header (c, line, c["deviates"].nat ());
          vector<Call> last_calls;
          for (size_t g = first; g <= last; ++g)
            {
              Shared h;
              vector<string> lines;
              const Run r = run (c, g, h, &lines);
              if (not r.error.empty ())
                {
                  std::cout << vj::Obj ().str ("e", "error").str ("what", r.error).done () << "\n";
                  break;
                }
              // the calls that the run with one generation less did not make
              std::map<vector<double>, size_t> before;
              for (const Call &q : last_calls)
                before[q.x]++;
              vector<string> fresh;
              string mean = "[]"; // the latest call with the resulting values
              const valarray<double> xs = r.x;
              for (const Call &q : h.calls)
                {
                  bool is_mean = true;
                  for (size_t i = 0; i < n; ++i)
                    is_mean = is_mean and q.x[i] == xs[i];
                  if (is_mean)
                    mean = "[" + call (q) + "]";
                  if (before.count (q.x) and before[q.x] > 0)
                    before[q.x]--;
                  else
                    fresh.push_back (call (q));
                }
              const bool tr = g == first and first > 0; // the first record is only a state
              if (g > 0 and r.g == g and r.opt)
                // without the probes around the result
                fresh.resize (std::min (fresh.size (), lambda));
              last_calls = h.calls;
              std::cout << vj::Obj ()
                               .str ("e", "gen")
                               .n ("stop", g)
                               .raw ("st", r.result)
                               .raw ("calls", tr ? "[]" : vj::list (fresh))
                               .raw ("rest", mean)
                               .n ("total", h.calls.size ())
                               .raw ("trace", vj::list (lines))
                               .done ()
                        << "\n";
              if (r.g < g or r.opt or r.und)
                break;
            }
        }
      else if (op == "full")
        {
          // One complete run: final state, all calls when asked for
          Shared h;
          vector<string> lines;
          if (c.has ("group"))
            {
              h.group = c["group"].nat ();
              h.gated = c["gated"].nat ();
              // the calls after the last generation come one after another
              Shared free;
              vector<string> none;
              h.gated = std::min<size_t> (h.gated, run (c, c["stop"].nat (), free, &none).g * lambda);
              for (const auto &v : c["order"].a)
                h.order.push_back (v.nat ());
            }
          if (c.has ("fail"))
            h.fail_at = c["fail"].nat ();
          const Run r = run (c, c["stop"].nat (), h, &lines);
          vector<string> st, en;
          for (size_t i : h.starts)
            st.push_back (vj::num (i));
          for (size_t i : h.ends)
            en.push_back (vj::num (i));
          if (c.has ("sorted")) // the order of calls within a generation does not matter
            {
              // (as do the calls after the last generation)
              const auto less = [] (const Call &a, const Call &b) { return a.x < b.x; };
              const size_t last = std::min<size_t> (r.g * lambda, h.calls.size ());
              for (size_t i = 0; i + lambda <= last; i += lambda)
                std::sort (h.calls.begin () + i, h.calls.begin () + i + lambda, less);
              std::sort (h.calls.begin () + last, h.calls.end (), less);
            }
          vj::Obj o;
          o.str ("e", "full").raw ("case", line).str ("error", r.error);
          o.raw ("st", r.result.empty () ? "null" : r.result);
          o.n ("total", h.calls.size ()).n ("overlap", h.max_running).b ("timeout", h.timeout);
          o.raw ("trace", vj::list (lines));
          if (c.has ("calls"))
            {
              o.raw ("calls", calls (h, 0, std::min<size_t> (h.calls.size (), c["calls"].nat ())));
              o.raw ("starts", vj::list (st)).raw ("ends", vj::list (en));
            }
          if (c.has ("tail"))
            {
              const size_t t = c["tail"].nat ();
              if (r.g * lambda < h.calls.size ())
                o.raw ("after", calls (h, r.g * lambda, h.calls.size ()));
              o.raw ("tail", calls (h, h.calls.size () > t ? h.calls.size () - t : 0, h.calls.size ()));
            }
          std::cout << o.done () << "\n";
        }
      else
        {
          std::cerr << "unknown operation " << op << std::endl;
          return 3;
        }
      std::cout.flush ();
    }
  return 0;
}
