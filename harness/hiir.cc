// Script executor for the half-band filters of hiir.  usage: hiir SCRIPT OUT.  It decides nothing.
#include "pandaresampler.hh"
#include "pandaresampler/hiir/Downsampler2xFpuTpl.h"
#include "pandaresampler/hiir/Upsampler2xFpuTpl.h"
#ifdef __SSE__
#include "pandaresampler/hiir/Downsampler2xSse.h"
#include "pandaresampler/hiir/Upsampler2xSse.h"
#endif
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using std::string; using std::vector;
using namespace PandaResampler;

static FILE *out; static int S, B; static bool exact;
static long num (double v)
{
  double w = std::ldexp (v, S);
  if (!(std::fabs (w) < 536870911.0)) return 536870911;
  double r = std::rint (w);
  if (exact && r != w) return 536870911;
  return (long) r;
}
static void arr (const char *name, const vector<long>& v)
{
  fprintf (out, ",\"%s\":[", name);
  for (size_t i = 0; i < v.size(); i++) fprintf (out, "%s%ld", i ? "," : "", v[i]);
  fputc (']', out);
}
struct Obj
{
  virtual ~Obj() {}
  virtual void coefs (const double *c) = 0;
  virtual void clear() = 0;
  virtual Obj *copy() = 0;
  virtual void assign (Obj *o) = 0;
  virtual void call (const string& kind, int n, const vector<long>& x, long lo, long hi, int al) = 0;
  virtual void big (const string& kind, long n, unsigned seed, int al) = 0;
};
/* inputs of long calls */
static long lcg (unsigned& x) { x = x * 1664525u + 1013904223u; return (long) (x >> 11) - (1 << 20); }
/* what is observed of a long call: first and last inputs and outputs, largest difference from the same samples processed one by one
   (by a copy of the object), samples changed outside the output */
template<class DT> static void log_big (long n, int ni, int no, const DT *x, const vector<const DT *>& y, double dev, long bad)
{
  fprintf (out, ",\"n\":[%ld,%ld],\"bad\":%ld,\"dev\":%ld", n >> 20, n & 1048575, bad, std::isfinite (dev) && dev < 1 ? (long) std::rint (std::ldexp (dev, 26)) : 536870911L);
  const long head = std::min (n, 40L), tail = std::min (n, 300L), show = std::min (n, 60L);
  const char *ny[2][2] = { { "y", "hi" }, { "ty", "thi" } };
  for (int t = 0; t < 2; t++)
    {
      vector<long> v;
      for (long k = 0; k < (t ? tail : head) * ni; k++) v.push_back (num ((t ? x + (n - tail) * ni : x)[k]));
      arr (t ? "tx" : "x", v);
      for (size_t q = 0; q < y.size(); q++)
        {
          v.clear();
          for (long k = 0; k < (t ? show : head) * no; k++) v.push_back (num ((t ? y[q] + (n - show) * no : y[q])[k]));
          arr (ny[t][q], v);
        }
    }
}
struct Arena { int n; long base; };
/* memory of the call: input block at 0, output block(s) at lo, hi (elements relative to the input) */
template<class DT> struct Mem
{
  vector<DT> keep; DT *base; long below, size;
  static constexpr double canary = 12345678.0;
  Mem (long b, long s, int al) : keep (b + s + 64)
  {
    below = b; size = s;
    base = keep.data();
    while (((uintptr_t) base / sizeof (DT)) % 4 != (uintptr_t) al) base++;
    base += b;
    for (auto& v : keep) v = DT (canary);
  }
  DT *at (long i) { return base + i; }
  /* cells that changed outside of the output blocks; inputs that were changed */
  long bad (const vector<std::pair<long,long>>& outs, long in0, const vector<long>& x)
  {
    long b = 0;
    for (long i = 0; i < (long) keep.size(); i++)
      {
        long p = &keep[i] - base; bool o = false;
        for (auto& q : outs) if (p >= q.first && p < q.first + q.second) o = true;
        if (o) continue;
        bool in = p >= in0 && p < in0 + (long) x.size();
        DT want = in ? DT (std::ldexp ((double) x[p - in0], -S)) : DT (canary);
        if (std::memcmp (&keep[i], &want, sizeof (DT))) b++;
      }
    return b;
  }
};
template<class DT> struct Buf          // n cells, canaries around them
{
  vector<DT> keep; DT *p; long n;
  Buf (long n, int al) : keep (n + 24), n (n)
  {
    p = keep.data() + 8;
    while (((uintptr_t) p / sizeof (DT)) % 4 != (uintptr_t) al) p++;
    for (auto& v : keep) v = DT (Mem<DT>::canary);
  }
  long bad()
  {
    long b = 0; DT c = DT (Mem<DT>::canary);
    for (DT *q = keep.data(); q < keep.data() + keep.size(); q++) if ((q < p || q >= p + n) && std::memcmp (q, &c, sizeof c)) b++;
    return b;
  }
};
template<class F, class DT, int NC> struct UpObj : Obj
{
  F f;
  void coefs (const double *c) override { f.set_coefs (c); }
  void clear() override { f.clear_buffers(); }
  Obj *copy() override { return new UpObj (*this); }
  void assign (Obj *o) override { f = static_cast<UpObj *> (o)->f; }
  void call (const string& kind, int n, const vector<long>& x, long lo, long, int al) override
  {
    /* output at 0, input at lo */
    Mem<DT> m (8 + (lo < 0 ? -lo : 0), 4 * n + (lo > 0 ? lo : 0) + 8, al);
    for (int i = 0; i < n; i++) *m.at (lo + i) = DT (std::ldexp ((double) x[i], -S));
    if (kind == "sample")
      for (int i = 0; i < n; i++) f.process_sample (*m.at (2 * i), *m.at (2 * i + 1), *m.at (lo + i));
    else
      f.process_block (m.at (0), m.at (lo), n);
    vector<long> y;
    for (int i = 0; i < 2 * n; i++) y.push_back (num (*m.at (i)));
    fprintf (out, ",\"bad\":%ld", m.bad ({ { 0, 2 * n } }, lo, x));
    arr ("x", x); arr ("y", y);
  }
  void big (const string& kind, long n, unsigned seed, int al) override
  {
    Buf<DT> in (n, al), y (2 * n, (al + 1) % 4);
    for (long i = 0; i < n; i++) in.p[i] = DT (std::ldexp ((double) lcg (seed), -S));
    F g = f;
    if (kind == "block") f.process_block (y.p, in.p, n);
    else for (long i = 0; i < n; i++) f.process_sample (y.p[2 * i], y.p[2 * i + 1], in.p[i]);
    double dev = 0;
    for (long i = 0; i < n; i++)
      {
        DT a, b; g.process_sample (a, b, in.p[i]);
        const double d0 = std::fabs ((double) a - y.p[2 * i]), d1 = std::fabs ((double) b - y.p[2 * i + 1]);
        if (!(d0 <= dev)) dev = d0 == d0 ? d0 : INFINITY;
        if (!(d1 <= dev)) dev = d1 == d1 ? d1 : INFINITY;
      }
    log_big<DT> (n, 1, 2, in.p, { y.p }, dev, in.bad() + y.bad());
  }
};
template<class F, class DT, int NC> struct DownObj : Obj
{
  F f;
  void coefs (const double *c) override { f.set_coefs (c); }
  void clear() override { f.clear_buffers(); }
  Obj *copy() override { return new DownObj (*this); }
  void assign (Obj *o) override { f = static_cast<DownObj *> (o)->f; }
  void call (const string& kind, int n, const vector<long>& x, long lo, long hi, int al) override
  {
    long mn = std::min (0L, std::min (lo, hi)), mx = std::max (lo, hi);
    Mem<DT> m (8 - mn, 4 * n + std::max (mx, 0L) + 8, al);
    for (int i = 0; i < 2 * n; i++) *m.at (i) = DT (std::ldexp ((double) x[i], -S));
    if (kind == "sample") for (int i = 0; i < n; i++) *m.at (lo + i) = f.process_sample (m.at (2 * i));
    else if (kind == "block") f.process_block (m.at (lo), m.at (0), n);
    else if (kind == "ssplit") for (int i = 0; i < n; i++) f.process_sample_split (*m.at (lo + i), *m.at (hi + i), m.at (2 * i));
    else f.process_block_split (m.at (lo), m.at (hi), m.at (0), n);
    bool sp = kind == "split" || kind == "ssplit";
    vector<long> y, h;
    for (int i = 0; i < n; i++) { y.push_back (num (*m.at (lo + i))); if (sp) h.push_back (num (*m.at (hi + i))); }
    vector<std::pair<long,long>> o = { { lo, n } };
    if (sp) o.push_back ({ hi, n });
    fprintf (out, ",\"bad\":%ld", m.bad (o, 0, x));
    arr ("x", x); arr ("y", y); if (sp) arr ("hi", h);
  }
  void big (const string& kind, long n, unsigned seed, int al) override
  {
    const bool sp = kind == "split" || kind == "ssplit";
    Buf<DT> in (2 * n, al), lo (n, (al + 1) % 4), hi (sp ? n : 0, (al + 3) % 4);
    for (long i = 0; i < 2 * n; i++) in.p[i] = DT (std::ldexp ((double) lcg (seed), -S));
    F g = f;
    if (kind == "block") f.process_block (lo.p, in.p, n);
    else if (kind == "split") f.process_block_split (lo.p, hi.p, in.p, n);
    else if (kind == "ssplit") for (long i = 0; i < n; i++) f.process_sample_split (lo.p[i], hi.p[i], in.p + 2 * i);
    else for (long i = 0; i < n; i++) lo.p[i] = f.process_sample (in.p + 2 * i);
    double dev = 0;
    for (long i = 0; i < n; i++)
      {
        DT a, b = 0;
        if (sp) g.process_sample_split (a, b, in.p + 2 * i); else a = g.process_sample (in.p + 2 * i);
        const double d0 = std::fabs ((double) a - lo.p[i]), d1 = sp ? std::fabs ((double) b - hi.p[i]) : 0;
        if (!(d0 <= dev)) dev = d0 == d0 ? d0 : INFINITY;
        if (!(d1 <= dev)) dev = d1 == d1 ? d1 : INFINITY;
      }
    vector<const DT *> ys { lo.p }; if (sp) ys.push_back (hi.p);
    log_big<DT> (n, 2, 1, in.p, ys, dev, in.bad() + lo.bad() + hi.bad());
  }
};
template<int NC> static Obj *make (char impl, char dir)
{
  Obj *o = 0;
  if (dir == 'U') switch (impl)
    {
    case 'f': o = new UpObj<hiir::Upsampler2xFpuTpl<NC, float>, float, NC>(); break;
    case 'd': o = new UpObj<hiir::Upsampler2xFpuTpl<NC, double>, double, NC>(); break;
#ifdef __SSE__
    case 's': o = new UpObj<hiir::Upsampler2xSse<NC>, float, NC>(); break;
#endif
    }
  else switch (impl)
    {
    case 'f': o = new DownObj<hiir::Downsampler2xFpuTpl<NC, float>, float, NC>(); break;
    case 'd': o = new DownObj<hiir::Downsampler2xFpuTpl<NC, double>, double, NC>(); break;
#ifdef __SSE__
    case 's': o = new DownObj<hiir::Downsampler2xSse<NC>, float, NC>(); break;
#endif
    }
  return o;
}
static Obj *make_nc (char impl, char dir, int nc)
{
  switch (nc)
    {
#define X(N) case N: return make<N> (impl, dir);
      X(1) X(2) X(3) X(4) X(5)
#ifndef FEW_ORDERS
      X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(16) X(17)
#endif
    }
  return 0;
}
static void run (const string& head, const vector<string>& ops)
{
  std::unique_ptr<Obj> obj[2];
  fprintf (out, "{\"e\":\"case\",%s}\n", head.c_str());
  for (auto& line : ops)
    {
      std::istringstream is (line); string op; is >> op;
      if (op == "scale") { int t; is >> S >> B >> t; exact = t == 0; continue; }
      int o; is >> o;
      if (op == "new" || op == "coefs")
        {
          char impl = 0, dir = 0; int nc;
          if (op == "new") is >> impl >> dir;
          is >> nc;
          vector<long> c; vector<double> d; long v;
          for (int i = 0; i < nc; i++) { is >> v; c.push_back (v); d.push_back (std::ldexp ((double) v, -B)); }
          if (op == "new")
            {
              obj[o].reset (make_nc (impl, dir, nc));
              if (!obj[o]) { fprintf (out, "{\"e\":\"unsupported\"}\n"); break; }
            }
          obj[o]->coefs (d.data());
          fprintf (out, "{\"e\":\"%s\",\"o\":%d", op.c_str(), o);
          if (op == "new") fprintf (out, ",\"d\":\"%c\"", dir);
          arr ("c", c); fprintf (out, "}\n");
        }
      else if (op == "clear") { obj[o]->clear(); fprintf (out, "{\"e\":\"clear\",\"o\":%d}\n", o); }
      else if (op == "copy")
        {
          int b, w; is >> b >> w;
          if (w) obj[b]->assign (obj[o].get()); else obj[b].reset (obj[o]->copy());
          fprintf (out, "{\"e\":\"copy\",\"o\":%d,\"b\":%d}\n", o, b);
        }
      else if (op == "big")      // big O DIR KIND N SEED AL : KIND sample, block, split, ssplit
        {
          string dir, kind; long n; unsigned seed; int al; is >> dir >> kind >> n >> seed >> al;
          fprintf (out, "{\"e\":\"%s\",\"o\":%d", dir == "U" ? "bigup" : kind == "split" || kind == "ssplit" ? "bigsplit" : "bigdown", o);
          obj[o]->big (kind, n, seed, al);
          fprintf (out, "}\n");
        }
      else
        {
          string dir; int n, al, k; long lo, hi, v; vector<long> x;
          is >> dir >> n >> lo >> hi >> al >> k;
          for (int i = 0; i < k; i++) { is >> v; x.push_back (v); }
          const char *e = dir == "U" ? "up" : (op == "split" || op == "ssplit") ? "split" : "down";
          fprintf (out, "{\"e\":\"%s\",\"o\":%d", e, o);
          obj[o]->call (op, n, x, lo, hi, al);
          fprintf (out, "}\n");
        }
      fflush (out);
    }
}
int main (int argc, char **argv)
{
  if (argc < 3) return 2;
  std::ifstream in (argv[1]); out = fopen (argv[2], "w"); if (!in || !out) return 2;
  string line, head; vector<string> ops;
  while (std::getline (in, line))
    {
      if (line.compare (0, 5, "case ") == 0) { head = line.substr (5); ops.clear(); }
      else if (line == "end")
        {
          fflush (out);
          pid_t pid = fork(); if (pid < 0) return 2;
          if (!pid) { alarm (30); run (head, ops); fflush (out); _exit (0); }
          int st; waitpid (pid, &st, 0); fseek (out, 0, SEEK_END);
          if (!WIFEXITED (st) || WEXITSTATUS (st)) fprintf (out, "\n{\"e\":\"crash\",\"sig\":%d}\n", WIFSIGNALED (st) ? WTERMSIG (st) : 1000 + WEXITSTATUS (st));
          fprintf (out, "{\"e\":\"end\"}\n");
        }
      else if (line.compare (0, 6, "limit ") && line.compare (0, 7, "stream ")) ops.push_back (line);
    }
  fclose (out);
  return 0;
}
