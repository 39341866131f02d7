// Executor for the IIR filter designer.  usage: designer SCRIPT OUT.  It decides nothing.
#include "pandaresampler/hiir/PolyphaseIir2Designer.cpp"
#include <cstdio>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
using PandaResampler::hiir::PolyphaseIir2Designer;
typedef PolyphaseIir2Designer P;
static FILE *out;
static void arr (const char *name, const double *v, int n)
{
  fprintf (out, ",\"%s\":[", name);
  for (int i = 0; i < n; i++) fprintf (out, v[i] == v[i] && v[i] - v[i] == 0 ? "%s%.17g" : "%s1e300", i ? "," : "", v[i]);
  fprintf (out, "]");
}
static double fin (double v) { return v == v && v - v == 0 ? v : 1e300; }
/* coefficient array with a margin that has to stay untouched */
struct Arr
{
  std::vector<double> v;
  Arr() : v (4096, 777.25) {}
  double *p() { return &v[1024]; }
  int touched (int n) { int b = 0; for (int i = -1024; i < 3072; i++) if ((i < 0 || i >= n) && p()[i] != 777.25) b++; return b; }
};
static void one (const std::string& line)
{
  std::istringstream is (line); std::string op, id; is >> op >> id;
  fprintf (out, "{\"op\":\"%s\",\"id\":\"%s\"", op.c_str(), id.c_str()); fflush (out);
  Arr a;
  if (op == "nbr") { double att, tbw; is >> att >> tbw; fprintf (out, ",\"att\":%.17g,\"tbw\":%.17g,\"n\":%d", att, tbw, P::compute_nbr_coefs_from_proto (att, tbw)); }
  else if (op == "att") { int n; double tbw; is >> n >> tbw; fprintf (out, ",\"n\":%d,\"tbw\":%.17g,\"att\":%.17g", n, tbw, fin (P::compute_atten_from_order_tbw (n, tbw))); }
  else if (op == "coefs")
    {
      double att, tbw; is >> att >> tbw; int n = P::compute_coefs (a.p(), att, tbw);
      fprintf (out, ",\"att\":%.17g,\"tbw\":%.17g,\"n\":%d,\"touched\":%d", att, tbw, n, a.touched (n)); arr ("c", a.p(), n > 0 && n < 3000 ? n : 0);
    }
  else if (op == "order")
    {
      int n; double tbw; is >> n >> tbw; P::compute_coefs_spec_order_tbw (a.p(), n, tbw);
      fprintf (out, ",\"n\":%d,\"tbw\":%.17g,\"touched\":%d", n, tbw, a.touched (n)); arr ("c", a.p(), n);
    }
  else if (op == "gdly")
    {
      int n, nulls; double gd, f, prec, alb, aub, tlb, tub, at = 777.25, tr = 777.25;
      is >> n >> gd >> f >> prec >> alb >> aub >> tlb >> tub >> nulls;
      P::ResCode r = P::compute_coefs_spec_order_gdly (a.p(), nulls ? 0 : &at, nulls ? 0 : &tr, n, gd, f, prec, alb, aub, tlb, tub);
      fprintf (out, ",\"n\":%d,\"gd\":%.17g,\"f\":%.17g,\"prec\":%.17g,\"alb\":%.17g,\"aub\":%.17g,\"tlb\":%.17g,\"tub\":%.17g,\"nulls\":%d,\"ret\":%d,\"att\":%.17g,\"tbw\":%.17g,\"touched\":%d",
               n, gd, f, prec, alb, aub, tlb, tub, nulls, r == P::ResCode_OK ? 0 : r < 0 ? -1 : 1, fin (at), fin (tr), a.touched (n)); arr ("c", a.p(), n);
      fprintf (out, ",\"raw\":%d,\"d\":%.17g", (int) r, r == P::ResCode_OK ? fin (P::compute_group_delay (a.p(), n, f, false)) : 0.0);
    }
  else if (op == "gd1") { double c, f; int ph; is >> c >> f >> ph; fprintf (out, ",\"c\":%.17g,\"f\":%.17g,\"ph\":%d,\"d\":%.17g", c, f, ph, fin (P::compute_group_delay (c, f, ph))); }
  else if (op == "gdn")
    {
      double f, c; int ph; is >> f >> ph; std::vector<double> v; while (is >> c) v.push_back (c);
      fprintf (out, ",\"f\":%.17g,\"ph\":%d,\"d\":%.17g", f, ph, fin (P::compute_group_delay (v.data(), (int) v.size(), f, ph))); arr ("c", v.data(), v.size());
    }
  fprintf (out, "}\n"); fflush (out);
}
int main (int argc, char **argv)
{
  if (argc < 3) return 2;
  std::ifstream in (argv[1]); out = fopen (argv[2], "w"); if (!in || !out) return 2;
  std::vector<std::string> lines; std::string line;
  while (std::getline (in, line)) if (!line.empty()) lines.push_back (line);
  size_t k = 0;
  while (k < lines.size())
    {
      /* a child works until it dies; the parent continues after the line where it died */
      int fd[2]; if (pipe (fd)) return 2;
      fflush (out);
      pid_t pid = fork(); if (pid < 0) return 2;
      if (!pid)
        {
          close (fd[0]); int nul = open ("/dev/null", O_WRONLY); dup2 (nul, 2);
          for (size_t i = k; i < lines.size(); i++) { alarm (20); one (lines[i]); char c = 1; if (write (fd[1], &c, 1) != 1) _exit (3); }
          _exit (0);
        }
      close (fd[1]); char buf[4096]; ssize_t r; size_t done = 0;
      while ((r = read (fd[0], buf, sizeof buf)) > 0) done += r;
      close (fd[0]); int st; waitpid (pid, &st, 0); fseek (out, 0, SEEK_END);
      k += done;
      if (k < lines.size()) { fprintf (out, ",\"crash\":%d}\n", WIFSIGNALED (st) ? WTERMSIG (st) : 1000 + WEXITSTATUS (st)); k++; }
    }
  fclose (out);
  return 0;
}
