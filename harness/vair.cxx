// Records values of the dispersion formulas and of their inverses.
#include <stdexcept>

#include "equations.h"
#include "json.h"

using namespace especia;
using std::string;

int
main ()
{
  string line;
  while (std::getline (std::cin, line))
    {
      if (line.empty ())
        continue;
      const vj::Value c = vj::parse (line);
      const string f = c["f"].s;
      const double x = c["x"].real ();
      const double guess = c["guess"].real ();
      double y, u, z, inv;
      if (f == "birch94")
        {
          y = Equations::birch94 (x);
          Equations::birch94 (x, u, z);
          inv = solve<real> (Equations::birch94, y, guess, 1.0e-12);
        }
      else if (f == "edlen53")
        {
          y = Equations::edlen53 (x);
          Equations::edlen53 (x, u, z);
          inv = solve<real> (Equations::edlen53, y, guess, 1.0e-12);
        }
      else if (f == "edlen66")
        {
          y = Equations::edlen66 (x);
          Equations::edlen66 (x, u, z);
          inv = solve<real> (Equations::edlen66, y, guess, 1.0e-12);
        }
      else
        return 3;
      std::cout << vj::Obj ().str ("e", "formula").str ("f", f).r ("x", x).r ("y", y).r ("u", u).r ("z", z).r ("inv", inv).done () << "\n";
    }
  return 0;
}
