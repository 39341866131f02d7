// Script executor for PandaResampler: performs the calls a script asks for on the real
// code and logs what was observable, one JSON object per call.  It decides nothing.
//
// usage: rsh SCRIPT OUT      (script and log format: /verif/DESIGN.md, "Harness")
#if defined (__SANITIZE_ADDRESS__)
#define WITH_ASAN
#elif defined (__has_feature)
#if __has_feature (address_sanitizer)
#define WITH_ASAN
#endif
#endif
#ifdef WITH_ASAN
#include <sanitizer/asan_interface.h>
#endif
#include "pandaresampler.hh"
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cfenv>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <fcntl.h>
#include <malloc.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

using PandaResampler::Resampler2;
using std::string;
using std::vector;

/* ---------------- heap observation ---------------- */
static std::atomic<bool> counting { false };
static std::atomic<long> n_alloc { 0 }, n_free { 0 }, live_blocks { 0 };
#ifndef NO_HEAP_HOOKS
extern "C" {
void *__libc_malloc (size_t); void __libc_free (void *); void *__libc_calloc (size_t, size_t);
void *__libc_realloc (void *, size_t); void *__libc_memalign (size_t, size_t);
static void on_alloc (void *p) { if (p && counting) { n_alloc++; live_blocks++; } }
void *malloc (size_t n) { void *p = __libc_malloc (n); on_alloc (p); return p; }
void *calloc (size_t a, size_t b) { void *p = __libc_calloc (a, b); on_alloc (p); return p; }
void *realloc (void *q, size_t n)
{
  if (q && counting) { n_free++; live_blocks--; }
  void *p = __libc_realloc (q, n); on_alloc (p); return p;
}
void *memalign (size_t a, size_t n) { void *p = __libc_memalign (a, n); on_alloc (p); return p; }
void *aligned_alloc (size_t a, size_t n) { return memalign (a, n); }
int posix_memalign (void **r, size_t a, size_t n) { *r = memalign (a, n); return *r ? 0 : ENOMEM; }
void free (void *p) { if (p && counting) { n_free++; live_blocks--; } __libc_free (p); }
}
#endif

/* ---------------- log ---------------- */
static int  log_fd = -1;
static char *logbuf; static size_t loglen, logcap = 64 << 20;
static void flush_log()
{
  size_t o = 0;
  while (o < loglen) { ssize_t k = write (log_fd, logbuf + o, loglen - o); if (k <= 0) _exit (97); o += k; }
  loglen = 0;
}
static void lg (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
static void lg (const char *fmt, ...)
{
  va_list ap; va_start (ap, fmt);
  if (loglen + (1 << 16) > logcap) flush_log();
  loglen += vsnprintf (logbuf + loglen, logcap - loglen, fmt, ap);
  va_end (ap);
}
static int err_fd = -1; static long err_seen = 0;
static int err_lines()    // number of lines the code under test printed on stdout/stderr since the last call
{
  fflush (stderr); fflush (stdout);
  off_t end = lseek (err_fd, 0, SEEK_END);
  int n = 0; char b[4096];
  while (err_seen < end)
    {
      ssize_t k = pread (err_fd, b, std::min<long> (sizeof b, end - err_seen), err_seen);
      if (k <= 0) break;
      for (ssize_t i = 0; i < k; i++) n += b[i] == '\n';
      err_seen += k;
    }
  return n;
}

/* ---------------- numbers ---------------- */
static int q26 (float y, int shift = 0)    // fixed point, 26 (+ shift) fractional bits; NaN and out of range are marked
{
  if (std::isnan (y)) return 2147483647;
  double v = std::rint (std::ldexp ((double) y, 26 + shift));
  if (v >= 2147483000.) return 2147483646;
  if (v <= -2147483000.) return -2147483646;
  return (int) v;
}
static int bits (float y) { int32_t i; memcpy (&i, &y, 4); return i; }
static float unbits (int32_t i) { float y; memcpy (&y, &i, 4); return y; }
static int microsamples (double d) { return std::isfinite (d) && fabs (d) < 2000 ? (int) std::rint (d * 1e6) : 2147483647; }

/* ---------------- floating point environment (control bits only, not the sticky exception flags) ---------------- */
static unsigned long fpenv()
{
  unsigned long e = fegetround();
#if defined (__x86_64__) || defined (__i386__)
  unsigned csr = 0; unsigned short cw = 0;
  asm volatile ("stmxcsr %0" : "=m" (csr));
  asm volatile ("fnstcw %0" : "=m" (cw));
  e = (e << 32) ^ ((unsigned long) (csr & 0xffc0) << 16) ^ cw;
#elif defined (__aarch64__)
  unsigned long fpcr; asm volatile ("mrs %0, fpcr" : "=r" (fpcr)); e = (e << 32) ^ fpcr;
#endif
  return e;
}

/* ---------------- streams ---------------- */
struct Stream { vector<float> v; long mod = 1, win = 1; char fmt = 'q'; int shift = 0; };
static std::map<int, Stream> streams;

/* ---------------- buffers ---------------- */
static const size_t PAGE = 4096;
struct Region { char *base; size_t total; char *lo, *hi; };      // [lo,hi) accessible, PROT_NONE around it
static Region guarded (size_t bytes)
{
  size_t pages = (bytes + PAGE - 1) / PAGE; if (!pages) pages = 1;
  Region r; r.total = (pages + 2) * PAGE;
  r.base = (char *) mmap (0, r.total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (r.base == MAP_FAILED) _exit (98);
  r.lo = r.base + PAGE; r.hi = r.lo + pages * PAGE;
  mprotect (r.lo, pages * PAGE, PROT_READ | PROT_WRITE);
  return r;
}
static void release (Region& r) { munmap (r.base, r.total); }
static const int32_t FILL = (int32_t) 0x7fa5c3e1;                  // a NaN pattern no filter produces

/* place: 'm' middle of a region with canaries, alignment ia/oa floats;
 *        'e' input and output flush with the end of a guarded region; 'b' flush with its begin;
 *        'z' null pointers (empty blocks only)
 *        'x' input ends, output begins at the guard; 'y' the other way round */
struct Call { Region in, out; float *i, *o; long n_in, n_out; char place; };
static Call setup_call (const float *src, long n, long nout, int ia, int oa, char place)
{
  Call c; c.n_in = n; c.n_out = nout; c.place = place;
  c.in = guarded ((n + 72) * sizeof (float)); c.out = guarded ((nout + 72) * sizeof (float));
  char ip = place, op = place;
  if (place == 'x') { ip = 'e'; op = 'b'; }
  if (place == 'y') { ip = 'b'; op = 'e'; }
  if (ip == 'e') c.i = (float *) c.in.hi - n; else if (ip == 'b') c.i = (float *) c.in.lo; else c.i = (float *) c.in.lo + 32 + ia;
  if (op == 'e') c.o = (float *) c.out.hi - nout; else if (op == 'b') c.o = (float *) c.out.lo; else c.o = (float *) c.out.lo + 32 + oa;
  for (float *p = (float *) c.in.lo; p < (float *) c.in.hi; p++) *p = unbits (0x7fc12345);   // surroundings: NaN
  if (n) memcpy (c.i, src, n * sizeof (float));
  for (int32_t *p = (int32_t *) c.out.lo; p < (int32_t *) c.out.hi; p++) *p = FILL;
  mprotect (c.in.lo, c.in.hi - c.in.lo, PROT_READ);
  if (place == 'z') { c.i = nullptr; c.o = nullptr; }
  return c;
}
/* with AddressSanitizer everything around the blocks is inaccessible during the call */
static void poison (const Call& c, bool on)
{
#ifdef WITH_ASAN
  const Region *rs[2] = { &c.in, &c.out };
  for (int k = 0; k < 2; k++)
    {
      const Region& r = *rs[k];
      if (!on) { ASAN_UNPOISON_MEMORY_REGION (r.lo, r.hi - r.lo); continue; }
      const char *b = (const char *) (k ? c.o : c.i), *e = b + (k ? c.n_out : c.n_in) * sizeof (float);
      if (c.place == 'z') { ASAN_POISON_MEMORY_REGION (r.lo, r.hi - r.lo); continue; }
      ASAN_POISON_MEMORY_REGION (e, r.hi - e);
      b -= (uintptr_t) b & 7;
      ASAN_POISON_MEMORY_REGION (r.lo, b - r.lo);
    }
#endif
}
static long nans (const float *y, long n)
{
  long k = 0;
  for (long i = 0; i < n; i++) k += std::isnan (y[i]);
  return k;
}
static void footprint (const Call& c, long& written, long& outside, long& first)
{
  written = outside = 0; first = -1;
  for (int32_t *p = (int32_t *) c.out.lo; p < (int32_t *) c.out.hi; p++)
    if (*p != FILL)
      {
        long k = p - (int32_t *) c.o;
        if (c.place != 'z' && k >= 0 && k < c.n_out) written++; else outside++;
        if (first < 0) first = k;
      }
}

/* ---------------- objects ---------------- */
struct Obj { std::unique_ptr<Resampler2> r; char mode = 'U', f = 'F'; unsigned ratio = 1; int prec = 0, sse = 0; };
static std::map<int, Obj> objs;
static long out_count (const Obj& o, long n) { return o.mode == 'U' ? n * o.ratio : n / (long) o.ratio; }
static void log_y (const Stream& s, long base, const float *y, long n)
{
  lg ("\"y\":[");
  bool first = true;
  for (long k = 0; k < n; k++)
    {
      long j = base + k;
      if (j % s.mod >= s.win) continue;
      if (s.fmt == 'n') continue;
      lg (first ? "%d" : ",%d", s.fmt == 'b' ? bits (y[k]) : q26 (y[k], s.shift));
      first = false;
    }
  lg ("]");
}

/* ------------- controlled preemption: page fault -> other thread runs -> resume ------------- */
struct Job {                       // one process_block call of one thread
  int o = 0, sid = 0; long off = 0, n = 0; Call c; bool done = false;
  sem_t go, stop; vector<char *> traps; std::thread th; int reached = 0, fe = 0;
};
static thread_local Job *my_job = nullptr;
static void on_segv (int sig, siginfo_t *si, void *)
{
  Job *j = my_job; char *a = (char *) ((uintptr_t) si->si_addr & ~(PAGE - 1));
  if (j)
    for (char *&t : j->traps)
      if (t == a)
        {
          bool is_in = a >= j->c.in.lo && a < j->c.in.hi;
          t = nullptr; j->reached++;
          sem_post (&j->stop);                       // yield: the scheduler decides who runs next
          while (sem_wait (&j->go) != 0) {}
          mprotect (a, PAGE, is_in ? PROT_READ : PROT_READ | PROT_WRITE);
          return;
        }
  signal (sig, SIG_DFL); raise (sig);
}
static Resampler2::Filter filt (char c) { return c == 'I' ? Resampler2::FILTER_IIR : Resampler2::FILTER_FIR; }

/* Half of the cases run in the company of objects of all configurations, that were created, used and mostly destroyed before, in an order
   that depends on the case: what they left behind must not matter. */
static unsigned hash_of (const string& s) { unsigned h = 2166136261u; for (unsigned char c : s) h = (h ^ c) * 16777619u; return h ^ (h >> 15); }
static void company (unsigned seed)
{
  struct C { bool up; unsigned r; int p, s; char f; };
  vector<C> cs;
  for (int up : { 0, 1 }) for (unsigned r : { 1, 2, 4, 8 }) for (char f : { 'F', 'I' }) for (int s : { 0, 1 }) for (int p : { 1, 8, 12, 16, 20, 24 })
    if (f == 'F' || p != 1) cs.push_back ({ (bool) up, r, p, s, f });
  auto rnd = [&] { seed = seed * 1664525u + 1013904223u; return seed >> 8; };
  for (size_t k = cs.size() - 1; k > 0; k--) std::swap (cs[k], cs[rnd() % (k + 1)]);
  static vector<std::unique_ptr<Resampler2>> *stay = new vector<std::unique_ptr<Resampler2>>;
  vector<float> in (32 * 8), out (32 * 8 * 8);
  for (auto& c : cs)
    {
      std::unique_ptr<Resampler2> r (new Resampler2 (c.up ? Resampler2::UP : Resampler2::DOWN, c.r, (Resampler2::Precision) c.p, c.s, filt (c.f)));
      volatile double d = r->delay() + r->order() + r->sse_enabled(); (void) d;
      for (float& v : in) v = (int) (rnd() % 15) - 7;
      r->process_block (in.data(), 8 * (1 + rnd() % 20), out.data());
      if (rnd() % 3 == 0) r->reset();
      if (rnd() % 4 == 0) stay->push_back (std::move (r));
    }
}

static bool run_op (std::istringstream& is, const string& op)
{
  if (op == "new")
    {
      int id; char m, f; unsigned ratio; int prec, sse;
      is >> id >> m >> ratio >> prec >> sse >> f;
      Obj& o = objs[id]; o.r.reset(); o.mode = m; o.ratio = ratio; o.prec = prec; o.sse = sse; o.f = f;
      err_lines();
      unsigned long fe0 = fpenv();
      long a0 = n_alloc, f0 = n_free, l0 = live_blocks; counting = true;
      Resampler2 *r = new Resampler2 (m == 'U' ? Resampler2::UP : Resampler2::DOWN, ratio, (Resampler2::Precision) prec, sse, filt (f));
      counting = false; long na = n_alloc - a0, nf = n_free - f0, lb = live_blocks - l0;
      int fe = fpenv() != fe0;
      o.r.reset (r);
      lg ("{\"e\":\"new\",\"o\":%d,\"m\":\"%c\",\"r\":%u,\"p\":%d,\"s\":%d,\"f\":\"%c\",\"fe\":%d,\"err\":%d,\"na\":%ld,\"nf\":%ld,\"lb\":%ld}\n",
          id, m, ratio, prec, sse, f, fe, err_lines(), na, nf, lb);
      return true;
    }
  if (op == "p")
    {
      int id, sid, ia, oa; long off, n; char place;
      is >> id >> sid >> off >> n >> ia >> oa >> place;
      Obj& o = objs[id]; Stream& s = streams[sid];
      long nout = out_count (o, n);
      Call c = setup_call (s.v.data() + off, n, nout, ia, oa, place);
      err_lines();
      long a0 = n_alloc, f0 = n_free; counting = true;
      poison (c, true);
      unsigned long fe0 = fpenv();
      o.r->process_block (c.i, n, c.o);
      int fe = fpenv() != fe0;
      poison (c, false);
      counting = false; long na = n_alloc - a0, nf = n_free - f0;
      long w, x, first; footprint (c, w, x, first);
      lg ("{\"e\":\"p\",\"o\":%d,\"sid\":%d,\"off\":%ld,\"n\":%ld,\"al\":\"%d%d%c\",\"w\":%ld,\"x\":%ld,\"nn\":%ld,\"fe\":%d,\"err\":%d,\"na\":%ld,\"nf\":%ld,",
          id, sid, off, n, ia, oa, place, w, x, place == 'z' ? 0 : nans (c.o, nout), fe, err_lines(), na, nf);
      log_y (s, o.mode == 'U' ? off * (long) o.ratio : off / (long) o.ratio, c.o, place == 'z' ? 0 : nout);
      lg ("}\n");
      release (c.in); release (c.out);
      return true;
    }
  if (op == "chain")      // chain A B SID OFF N : the output of A is the input of B
    {
      int a, b, sid; long off, n; is >> a >> b >> sid >> off >> n;
      Obj& oa = objs[a]; Obj& ob = objs[b]; Stream& s = streams[sid];
      long nm = out_count (oa, n), no = out_count (ob, nm);
      Call c1 = setup_call (s.v.data() + off, n, nm, 0, 0, 'm');
      oa.r->process_block (c1.i, n, c1.o);
      long w1, x1, w2, x2, first; footprint (c1, w1, x1, first);
      Call c2 = setup_call (c1.o, nm, no, 0, 0, 'm');
      ob.r->process_block (c2.i, nm, c2.o);
      footprint (c2, w2, x2, first);
      lg ("{\"e\":\"chain\",\"o\":%d,\"b\":%d,\"sid\":%d,\"off\":%ld,\"n\":%ld,\"w1\":%ld,\"w2\":%ld,\"x\":%ld,\"err\":%d,", a, b, sid, off, n, w1, w2, x1 + x2, err_lines());
      log_y (s, off, c2.o, no);
      lg ("}\n");
      release (c1.in); release (c1.out); release (c2.in); release (c2.out);
      return true;
    }
  if (op == "r" || op == "q")
    {
      int id; is >> id; Obj& o = objs[id];
      err_lines();
      long a0 = n_alloc, f0 = n_free; counting = true;
      double d = 0; unsigned ord = 0; bool sse = false;
      unsigned long fe0 = fpenv();
      if (op == "r") o.r->reset(); else { d = o.r->delay(); ord = o.r->order(); sse = o.r->sse_enabled(); }
      counting = false; long na = n_alloc - a0, nf = n_free - f0;
      int fe = fpenv() != fe0;
      lg ("{\"e\":\"%s\",\"o\":%d,\"fe\":%d,\"err\":%d,\"na\":%ld,\"nf\":%ld", op.c_str(), id, fe, err_lines(), na, nf);
      if (op == "q") lg (",\"d\":%d,\"ord\":%u,\"se\":%d,\"av\":%d", microsamples (d), ord, (int) sse, (int) Resampler2::sse_available());
      lg ("}\n");
      return true;
    }
  if (op == "mv" || op == "ma")        // move construct / move assign  a -> b
    {
      int a, b; is >> a >> b; Obj& oa = objs[a]; Obj& ob = objs[b];
      long a0 = n_alloc, l0 = live_blocks;
      unsigned long fe0 = fpenv();
      counting = true;
      if (op == "mv") { Resampler2 *r = new Resampler2 (std::move (*oa.r)); counting = false; ob.r.reset (r); }
      else { *ob.r = std::move (*oa.r); counting = false; }
      long na = n_alloc - a0, lb = live_blocks - l0;
      ob.mode = oa.mode; ob.ratio = oa.ratio; ob.prec = oa.prec; ob.sse = oa.sse; ob.f = oa.f;
      lg ("{\"e\":\"%s\",\"o\":%d,\"b\":%d,\"fe\":%d,\"na\":%ld,\"lb\":%ld}\n", op.c_str(), a, b, fpenv() != fe0, na, lb);
      return true;
    }
  if (op == "del")
    {
      int id; is >> id;
      unsigned long fe0 = fpenv();
      long l0 = live_blocks, a0 = n_alloc; counting = true;
      delete objs[id].r.release();
      counting = false; long lb = live_blocks - l0, na = n_alloc - a0;
      objs.erase (id);
      lg ("{\"e\":\"del\",\"o\":%d,\"fe\":%d,\"na\":%ld,\"lb\":%ld}\n", id, fpenv() != fe0, na, lb);
      return true;
    }
  if (op == "soak")     // soak O SID OFF N BLK TOTAL : the segment [OFF,OFF+N) of the stream again and again, TOTAL samples in blocks of BLK
    {
      int id, sid; long off, n, blk, total; is >> id >> sid >> off >> n >> blk >> total;
      Obj& o = objs[id]; Stream& s = streams[sid];
      vector<float> in; while ((long) in.size() < n + blk) in.insert (in.end(), s.v.begin() + off, s.v.begin() + off + n);
      long np = out_count (o, n);
      vector<float> ref (np), out (out_count (o, blk) + 1);
      long pos = 0, calls = 0, filled = 0, bad = 0; double dev = 0;
      err_lines();
      unsigned long fe0 = fpenv();
      long a0 = n_alloc, f0 = n_free;
      total = total / n * n;                        // whole periods
      while (pos < total)
        {
          long k = std::min (blk, total - pos), no = out_count (o, k), ob = out_count (o, pos % n);
          out[no] = unbits (FILL);
          counting = true;
          o.r->process_block (in.data() + pos % n, k, out.data());
          counting = false;
          bad += bits (out[no]) != FILL;
          for (long i = 0; i < no; i++)
            {
              long q = (ob + i) % np;
              if (filled < np) { ref[q] = out[i]; filled++; continue; }
              double d = std::fabs ((double) out[i] - ref[q]);
              if (!(d <= dev)) dev = std::isnan (d) ? INFINITY : d;
            }
          pos += k; calls++;
        }
      lg ("{\"e\":\"soak\",\"o\":%d,\"sid\":%d,\"off\":%ld,\"n\":%ld,\"calls\":%ld,\"x\":%ld,\"fe\":%d,\"err\":%d,\"na\":%ld,\"nf\":%ld,\"dev\":%d}\n",
          id, sid, off, n, calls, bad, fpenv() != fe0, err_lines(), (long) n_alloc - a0, (long) n_free - f0, std::isfinite (dev) ? q26 (dev) : 2147483647);
      return true;
    }
  if (op == "wear")     // wear O SID N K : K times { the first N samples of the stream, queries, reset }
    {
      int id, sid; long n, k; is >> id >> sid >> n >> k;
      Obj& o = objs[id]; Stream& s = streams[sid];
      vector<float> out (out_count (o, n) + 1), ref;
      long bad = 0; double dev = 0;
      err_lines();
      unsigned long fe0 = fpenv();
      long a0 = n_alloc, f0 = n_free;
      for (long q = 0; q < k; q++)
        {
          out.back() = unbits (FILL);
          counting = true;
          o.r->process_block (s.v.data(), n, out.data());
          o.r->delay(); o.r->order(); o.r->sse_enabled();
          o.r->reset();
          counting = false;
          bad += bits (out.back()) != FILL;
          out.back() = 0;
          if (!q) ref = out;
          for (size_t i = 0; i < out.size(); i++)
            {
              double d = std::fabs ((double) out[i] - ref[i]);
              if (!(d <= dev)) dev = std::isnan (d) ? INFINITY : d;
            }
        }
      lg ("{\"e\":\"wear\",\"o\":%d,\"sid\":%d,\"n\":%ld,\"times\":%ld,\"x\":%ld,\"fe\":%d,\"err\":%d,\"na\":%ld,\"nf\":%ld,\"dev\":%d,",
          id, sid, n, k, bad, fpenv() != fe0, err_lines(), (long) n_alloc - a0, (long) n_free - f0, std::isfinite (dev) ? q26 (dev) : 2147483647);
      ref.pop_back();
      log_y (s, 0, ref.data(), ref.size());
      lg ("}\n");
      return true;
    }
  if (op == "crowd")    // crowd O SID N K : K more objects of the configuration of O, each fed with the first N samples in turn, half of them at a time
    {
      int id, sid; long n, k; is >> id >> sid >> n >> k;
      Obj& o = objs[id]; Stream& s = streams[sid];
      long no = out_count (o, n), h = n / 2 / o.ratio * o.ratio, nh = out_count (o, h);
      vector<std::unique_ptr<Resampler2>> rs (k);
      vector<float> out (no * k);
      err_lines();
      unsigned long fe0 = fpenv();
      long l0 = live_blocks; counting = true;
      for (auto& r : rs) r.reset (new Resampler2 (o.mode == 'U' ? Resampler2::UP : Resampler2::DOWN, o.ratio, (Resampler2::Precision) o.prec, o.sse, filt (o.f)));
      for (long q = 0; q < k; q++) rs[q]->process_block (s.v.data(), h, out.data() + q * no);
      for (long q = k - 1; q >= 0; q--) rs[q]->process_block (s.v.data() + h, n - h, out.data() + q * no + nh);
      for (long q = 0; q < k; q++) rs[(q * 7) % k].reset();
      for (auto& r : rs) r.reset();
      counting = false;
      double dev = 0;
      for (long i = 0; i < no * k; i++)
        {
          double d = std::fabs ((double) out[i] - out[i % no]);
          if (!(d <= dev)) dev = std::isnan (d) ? INFINITY : d;
        }
      lg ("{\"e\":\"crowd\",\"o\":%d,\"sid\":%d,\"n\":%ld,\"times\":%ld,\"fe\":%d,\"err\":%d,\"lb\":%ld,\"dev\":%d,",
          id, sid, n, k, fpenv() != fe0, err_lines(), (long) live_blocks - l0, std::isfinite (dev) ? q26 (dev) : 2147483647);
      log_y (s, 0, out.data(), no);
      lg ("}\n");
      return true;
    }
  if (op == "sweep")    // sweep O SID N MODE A B STEP SEED [JUNK] : many partitions of the first samples of the stream, each by a fresh object of the
    {                   // configuration of O, in blocks flush with (or a few samples before) inaccessible memory; A, B, STEP in units
      // MODE n: size a again and again (a = A..B)   MODE p: sizes a and b in turn (a, b = A..B)   MODE l: one block of a, then one of any size
      // MODE x: random sizes
      // MODE r: a samples of stream JUNK, reset, then the stream          MODE o: refused blocks of odd length between blocks of any size
      int id, sid, jsid = -1; long total, a, b, step; char mode; unsigned seed; is >> id >> sid >> total >> mode >> a >> b >> step >> seed;
      if (mode == 'r') is >> jsid;
      Obj& o = objs[id]; Stream& s = streams[sid];
      const long u = o.mode == 'D' ? o.ratio : 1, tail = 120 * u;
      const long big = std::max (total, mode == 'r' ? b * u : mode == 'o' ? 2 * b : 0);
      auto make = [&] { return std::unique_ptr<Resampler2> (new Resampler2 (o.mode == 'U' ? Resampler2::UP : Resampler2::DOWN, o.ratio, (Resampler2::Precision) o.prec, o.sse, filt (o.f))); };
      auto rnd = [&] { seed = seed * 1664525u + 1013904223u; return seed >> 8; };
      vector<float> ref (out_count (o, total) + 1);
      Region ri = guarded ((big + 64) * sizeof (float)), ro = guarded ((out_count (o, big) + 64) * sizeof (float));
      for (float *p = (float *) ri.lo; p < (float *) ri.hi; p++) *p = unbits (0x7fc12345);
      auto r = make();
      for (long pos = 0; pos < total; )
        {
          long k = std::min (256 * u, total - pos);
          r->process_block (s.v.data() + pos, k, ref.data() + out_count (o, pos));
          pos += k;
        }
      long times = 0, blocks = 0, x = 0, na = 0, nf = 0, mute = 0, wa = -1, wb = -1; double dev = 0; int fe = 0;
      err_lines();
      auto block = [&] (const float *src, long n, const float *want, bool refused)
        {
          const long no = refused ? 0 : out_count (o, n); const int si = rnd() % 4, so = rnd() % 4;
          float *in = (float *) ri.hi - si - n, *out = (float *) ro.hi - so - no;
          memcpy (in, src, n * sizeof (float));
          for (int k = 1; k <= 8; k++) { out[-k] = unbits (FILL); if (in - k >= (float *) ri.lo) in[-k] = unbits (0x7fc12345); }
          for (long k = 0; k < no + so; k++) out[k] = unbits (FILL);
          for (int k = 0; k < si; k++) in[n + k] = unbits (0x7fc12345);
          unsigned long fe0 = fpenv();
          long a0 = n_alloc, f0 = n_free; counting = true;
          r->process_block (in, n, out);
          counting = false;
          if (fpenv() != fe0) fe = 1;
          if (refused) mute += !err_lines();          // the report itself may use the heap
          else { na += n_alloc - a0; nf += n_free - f0; }
          bool bad = false;
          for (int k = 1; k <= 8; k++) bad |= bits (out[-k]) != FILL;
          for (int k = 0; k < so; k++) bad |= bits (out[no + k]) != FILL;
          for (long k = 0; k < no; k++) bad |= bits (out[k]) == FILL;
          x += bad; blocks++;
          if (want)
            for (long k = 0; k < no; k++)
              {
                double d = std::fabs ((double) out[k] - want[k]);
                if (!(d <= dev)) { dev = std::isnan (d) ? INFINITY : d; bad = true; }
              }
          return bad;
        };
      for (long q = a; q <= b; q += step)
        for (long q2 = mode == 'p' ? a : q; q2 <= (mode == 'p' ? b : q); q2 += step)
          {
            r = make(); err_lines();
            bool worse = false;
            long end = std::min (total, mode == 'r' ? tail + 8 * u : mode == 'p' || mode == 'o' ? 2 * (q + q2) * u + tail : mode == 'l' ? q * u + 600 * u + tail : mode == 'x' ? 1500 * u : 3 * q * u + tail);
            if (mode == 'r')
              {
                Stream& j = streams[jsid]; long n = q * u;
                if (rnd() % 2 && n > u) { long m = rnd() % q * u; block (j.v.data(), m, nullptr, false); block (j.v.data() + m, n - m, nullptr, false); }
                else block (j.v.data(), n, nullptr, false);
                r->reset();
              }
            for (long pos = 0, k = 0; pos < end; k++)
              {
                long n = mode == 'l' ? (k == 0 ? q : k == 1 ? 1 + rnd() % 600 : 120) : mode == 'r' ? (k == 0 ? 1 + rnd() % 8 : 120) : k % 2 ? q2 : q;
                if (mode == 'x') { unsigned w = rnd() % 10; n = 1 + rnd() % (w < 5 ? 16 : w < 8 ? 64 : 1100); }
                else if (pos >= end - tail && mode != 'l' && mode != 'r') n = 120;
                if (mode == 'o') { worse |= block (s.v.data(), 2 * q - 1, nullptr, true); n = 1 + rnd() % 60; }
                n = std::min (n * u, end - pos);
                worse |= block (s.v.data() + pos, n, ref.data() + out_count (o, pos), false);
                pos += n;
              }
            if (worse) { wa = q; wb = q2; }
            times++;
          }
      release (ri); release (ro);
      ref.pop_back();
      lg ("{\"e\":\"sweep\",\"o\":%d,\"sid\":%d,\"n\":%ld,\"mode\":\"%c\",\"a\":%ld,\"b\":%ld,\"times\":%ld,\"blocks\":%ld,\"x\":%ld,\"mute\":%ld,\"worst\":[%ld,%ld],\"fe\":%d,\"err\":%d,\"na\":%ld,\"nf\":%ld,\"dev\":%d,",
          id, sid, total, mode, a, b, times, blocks, x, mute, wa, wb, fe, err_lines(), na, nf, std::isfinite (dev) ? q26 (dev) : 2147483647);
      log_y (s, 0, ref.data(), ref.size());
      lg ("}\n");
      return true;
    }
  if (op == "copyall")   // copyall O LO HI BLK STEP : bit patterns from LO to HI in steps of STEP (NaNs only for ratio 1), in blocks of BLK (-BLK: of all sizes
    {                     // up to BLK, at all alignments), then zeros and reset; compared with the outputs at the positions that delay() announces
      int id; unsigned long lo, hi, step = 1; long blk; is >> id >> lo >> hi >> blk >> step; Obj& o = objs[id];
      const int r = o.ratio, d = (int) o.r->delay(), lag = (d + r - 1) / r + 1;
      const unsigned long total = (hi - lo) / step + 1;
      auto pat = [&] (unsigned long k) -> uint32_t { uint32_t v = lo + k * step; return k >= total ? 0 : r > 1 && (v & 0x7f800000) == 0x7f800000 && (v & 0x7fffff) ? 0x3f800000 : v; };
      const bool mix = blk < 0; const long top = mix ? -blk : blk;
      vector<float> in_mem (top + 4), out_mem (top * r + 4);
      float *in = in_mem.data(), *out = out_mem.data();
      unsigned seed = lo ^ hi;
      auto rnd = [&] { seed = seed * 1664525u + 1013904223u; return seed >> 8; };
      unsigned long bad = 0, first = 0;
      err_lines();
      long a0 = n_alloc, f0 = n_free; counting = true;
      for (unsigned long at = 0, blk = top; at < total + lag; at += blk)
        {
          if (mix)
            {
              blk = 1 + rnd() % (rnd() % 4 ? 2100 : top); in = in_mem.data() + rnd() % 4; out = out_mem.data() + rnd() % 4;
            }
          for (long j = 0; j < (long) blk; j++) in[j] = unbits (pat (at + j));
          o.r->process_block (in, blk, out);
          long q0 = (long) at * r - d, j = ((-q0) % r + r) % r;         // first j with (position - d) % r = 0
          for (; j < (long) blk * r; j += r)
            {
              const long k = (q0 + j) / r;
              const uint32_t v = bits (out[j]);
              if (q0 + j < 0 ? (v & 0x7fffffff) != 0 : v != pat (k)) { if (!bad++) first = k; }
            }
        }
      o.r->reset();
      counting = false;
      lg ("{\"e\":\"copyall\",\"o\":%d,\"lo\":[%lu,%lu],\"hi\":[%lu,%lu],\"d\":%d,\"bad\":%lu,\"first\":[%lu,%lu],\"err\":%d,\"fe\":0,\"na\":%ld,\"nf\":%ld}\n", id, lo >> 16, lo & 65535,
          hi >> 16, hi & 65535, d, std::min (bad, 1000000ul), (lo + first * step) >> 16 & 65535, (lo + first * step) & 65535, err_lines(), n_alloc - a0, n_free - f0);
      return true;
    }
  if (op == "giant")    // giant O SID N PER K : one block of N samples; the block repeats the first PER samples of the stream (PER divides a page).
    {                   // Memory: the pages of the block (and those of the output) are mappings of the same few pages, except for the first and last of the output
      int id, sid; long n, per, k; is >> id >> sid >> n >> per >> k;
      Obj& o = objs[id]; Stream& s = streams[sid];
      const size_t CH = 64 << 20;
      const long no = out_count (o, n);
      struct Map { char *base; size_t total; float *p; };
      auto space = [&] (long cnt, bool out) {
        Map m; size_t bytes = (cnt * sizeof (float) + PAGE - 1) / PAGE * PAGE;
        m.total = bytes + 2 * PAGE;
        m.base = (char *) mmap (0, m.total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m.base == MAP_FAILED) _exit (98);
        int fd = memfd_create ("giant", 0);
        if (fd < 0 || ftruncate (fd, CH)) _exit (98);
        float *f = (float *) mmap (0, CH, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (f == MAP_FAILED) _exit (98);
        if (!out) for (size_t j = 0; j < CH / sizeof (float); j++) f[j] = s.v[j % per];
        munmap (f, CH);
        for (size_t at = 0; at < bytes; at += CH)
          if (mmap (m.base + PAGE + at, std::min (CH, bytes - at), out ? PROT_READ | PROT_WRITE : PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit (98);
        close (fd);
        m.p = (float *) (m.base + PAGE);
        if (out)
          for (size_t at : { (size_t) 0, bytes - 4 * PAGE })
            if (mmap (m.base + PAGE + at, 4 * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) _exit (98);
        return m;
      };
      Map in = space (n, false), out = space (no, true);
      float *last = (float *) (out.base + PAGE + (no * sizeof (float) + PAGE - 1) / PAGE * PAGE);
      for (float *p = last - 2 * PAGE / sizeof (float); p < last; p++) *p = unbits (FILL);
      for (float *p = out.p; p < out.p + 4 * PAGE / sizeof (float); p++) *p = unbits (FILL);
      err_lines();
      unsigned long fe0 = fpenv();
      long a0 = n_alloc, f0 = n_free; counting = true;
      o.r->process_block (in.p, n, out.p);
      counting = false; long na = n_alloc - a0, nf = n_free - f0;
      long x = 0;
      for (float *p = out.p + no; p < last; p++) x += bits (*p) != FILL;
      long un = 0;           // not written
      for (float *p = out.p; p < out.p + 4 * PAGE / sizeof (float); p++) un += bits (*p) == FILL;
      for (float *p = last - 2 * PAGE / sizeof (float); p < out.p + no; p++) un += bits (*p) == FILL;
      lg ("{\"e\":\"giant\",\"o\":%d,\"sid\":%d,\"hi\":%ld,\"lo\":%ld,\"per\":%ld,\"k\":%ld,\"x\":%ld,\"un\":%ld,\"fe\":%d,\"err\":%d,\"na\":%ld,\"nf\":%ld,",
          id, sid, n >> 20, n & 1048575, per, k, x, un, fpenv() != fe0, err_lines(), na, nf);
      lg ("\"head\":["); for (long j = 0; j < k; j++) lg (j ? ",%d" : "%d", q26 (out.p[j]));
      lg ("],\"tail\":["); for (long j = 0; j < k; j++) lg (j ? ",%d" : "%d", q26 (out.p[no - k + j]));
      lg ("]}\n");
      munmap (in.base, in.total); munmap (out.base, out.total);
      return true;
    }
  if (op == "refuse")    // refuse O N : a block of N samples that must be refused, at an inaccessible address
    {
      int id; long n; is >> id >> n; Obj& o = objs[id];
      static char *none = (char *) mmap (0, PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      err_lines();
      unsigned long fe0 = fpenv();
      o.r->process_block ((const float *) none, (unsigned) n, (float *) none);
      const int fe = fpenv() != fe0;
      lg ("{\"e\":\"refuse\",\"o\":%d,\"hi\":%ld,\"lo\":%ld,\"w\":0,\"x\":0,\"fe\":%d,\"err\":%d}\n", id, n >> 20, n & 1048575, fe, err_lines());
      return true;
    }
  if (op == "news")      // news AXIS M FIX SSE F A B : objects for all ratios (AXIS r, precision FIX) or precisions (AXIS p, ratio FIX) from A to B,
    {                    // as intervals of arguments that are (1) or are not (0) reported as wrong
      char axis, m, f; long fix, a, b; int sse; is >> axis >> m >> fix >> sse >> f >> a >> b;
      lg ("{\"e\":\"news\",\"axis\":\"%c\",\"m\":\"%c\",\"fix\":%ld,\"s\":%d,\"f\":\"%c\",\"a\":%ld,\"b\":%ld,\"v\":[", axis, m, fix, sse, f, a, b);
      err_lines();
      unsigned long fe0 = fpenv();
      long l0 = live_blocks, from = a, runs = 0; int last = -1;
      for (long v = a; v <= b + 1 && runs < 300; v++)
        {
          int diag = 2;
          if (v <= b)
            {
              counting = true;
              { Resampler2 r (m == 'U' ? Resampler2::UP : Resampler2::DOWN, axis == 'r' ? v : fix, (Resampler2::Precision) (axis == 'r' ? fix : v), sse, filt (f)); }
              counting = false;
              diag = err_lines() > 0;
            }
          if (v > a && diag != last) { lg ("%s{\"a\":%ld,\"b\":%ld,\"d\":%d}", runs++ ? "," : "", from, v - 1, last); from = v; }
          last = diag;
        }
      lg ("],\"lb\":%ld,\"fe\":%d}\n", live_blocks - l0, fpenv() != fe0);
      return true;
    }
  if (op == "par")
    {
      // par K  { o sid off n ntraps {I|O page}... } xK  S {who}...   : schedule of who runs next
      int K; is >> K;
      vector<std::unique_ptr<Job>> jobs;
      for (int k = 0; k < K; k++)
        {
          std::unique_ptr<Job> j (new Job); int nt;
          is >> j->o >> j->sid >> j->off >> j->n >> nt;
          Obj& o = objs[j->o];
          long nout = out_count (o, j->n);
          j->c = setup_call (streams[j->sid].v.data() + j->off, j->n, nout, 0, 0, 'b');
          for (int t = 0; t < nt; t++)
            {
              char side; long page; is >> side >> page;
              char *a = side == 'I' ? j->c.in.lo : j->c.out.lo; char *h = side == 'I' ? j->c.in.hi : j->c.out.hi;
              a += page * PAGE;
              if (a < h) { mprotect (a, PAGE, PROT_NONE); j->traps.push_back (a); }
            }
          sem_init (&j->go, 0, 0); sem_init (&j->stop, 0, 0);
          jobs.push_back (std::move (j));
        }
      struct sigaction sa, old; memset (&sa, 0, sizeof sa);
      sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO; sigaction (SIGSEGV, &sa, &old);
      for (auto& jp : jobs)
        {
          Job *j = jp.get(); Resampler2 *r = objs[j->o].r.get();
          j->th = std::thread ([j, r] {
            my_job = j;
            while (sem_wait (&j->go) != 0) {}
            unsigned long fe0 = fpenv();
            r->process_block (j->c.i, j->n, j->c.o);
            j->fe = fpenv() != fe0;
            j->done = true; my_job = nullptr;
            sem_post (&j->stop);
          });
        }
      int S; is >> S;
      vector<int> sched (S); for (int& w : sched) is >> w;
      lg ("{\"e\":\"par\",\"ran\":[");
      bool firsts = true;
      auto step = [&] (int w) {
        if (jobs[w]->done) return;
        sem_post (&jobs[w]->go); while (sem_wait (&jobs[w]->stop) != 0) {}
        lg (firsts ? "%d" : ",%d", w); firsts = false;
      };
      for (int w : sched) step (w);
      for (int k = 0; k < K; k++) while (!jobs[k]->done) step (k);
      for (auto& j : jobs) j->th.join();
      sigaction (SIGSEGV, &old, 0);
      lg ("],\"calls\":[");
      for (int k = 0; k < K; k++)
        {
          Job& j = *jobs[k]; Obj& o = objs[j.o]; Stream& s = streams[j.sid];
          long w, x, first; footprint (j.c, w, x, first);
          lg ("%s{\"o\":%d,\"sid\":%d,\"off\":%ld,\"n\":%ld,\"stops\":%d,\"fe\":%d,\"w\":%ld,\"x\":%ld,", k ? "," : "", j.o, j.sid, j.off, j.n, j.reached, j.fe, w, x);
          log_y (s, o.mode == 'U' ? j.off * (long) o.ratio : j.off / (long) o.ratio, j.c.o, out_count (o, j.n));
          lg ("}");
          release (j.c.in); release (j.c.out);
        }
      lg ("]}\n");
      return true;
    }
  if (op == "free")      // free-running threads: K o sid blk rounds : each thread makes its own object and feeds its whole stream in blocks
    {
      int K; is >> K;
      struct T { int o, sid; long blk; vector<float> out; int fe; };
      vector<T> ts (K);
      for (auto& t : ts) { is >> t.o >> t.sid >> t.blk; t.out.resize (out_count (objs[t.o], streams[t.sid].v.size())); }
      vector<std::thread> th; std::atomic<int> ready { 0 };
      for (auto& t : ts)
        {
          Obj *o = &objs[t.o]; Stream *s = &streams[t.sid]; T *tp = &t;
          th.emplace_back ([o, s, tp, K, &ready] {
            ready++; while (ready < K) {}
            long n = s->v.size();
            vector<float> in (s->v);
            unsigned long fe0 = fpenv();
            o->r.reset (new Resampler2 (o->mode == 'U' ? Resampler2::UP : Resampler2::DOWN, o->ratio, (Resampler2::Precision) o->prec, o->sse, filt (o->f)));
            for (long p = 0; p < n; p += tp->blk)
              o->r->process_block (in.data() + p, std::min (tp->blk, n - p), tp->out.data() + out_count (*o, p));
            tp->fe = fpenv() != fe0;
          });
        }
      for (auto& t : th) t.join();
      lg ("{\"e\":\"free\",\"calls\":[");
      for (int k = 0; k < K; k++)
        {
          T& t = ts[k];
          lg ("%s{\"o\":%d,\"sid\":%d,\"off\":0,\"n\":%ld,\"fe\":%d,\"w\":%ld,\"x\":0,", k ? "," : "", t.o, t.sid, (long) streams[t.sid].v.size(), t.fe, (long) t.out.size());
          log_y (streams[t.sid], 0, t.out.data(), t.out.size());
          lg ("}");
        }
      lg ("]}\n");
      return true;
    }
  if (op == "bits" || op == "name")
    {
      lg ("{\"e\":\"%s\",\"v\":[", op.c_str());
      string t; bool first = true;
      while (is >> t)
        {
          unsigned long v = strtoul (t.c_str(), 0, 0);
          if (op == "bits")
            lg ("%s{\"hi\":%lu,\"lo\":%lu,\"p\":%d}", first ? "" : ",", v >> 16, v & 65535, (int) Resampler2::find_precision_for_bits (v));
          else
            lg ("%s{\"a\":%d,\"s\":\"%s\"}", first ? "" : ",", (int) strtol (t.c_str(), 0, 0), Resampler2::precision_name ((Resampler2::Precision) strtol (t.c_str(), 0, 0)));
          first = false;
        }
      lg ("]}\n");
      return true;
    }
  if (op == "bitsrun" || op == "namerun")   // A B : all arguments from A to B, as intervals with equal answers
    {
      long a, b; is >> a >> b;
      const bool bb = op == "bitsrun";
      lg ("{\"e\":\"%s\",\"a\":[%ld,%ld],\"b\":[%ld,%ld],\"v\":[", op.c_str(), a >> 16, a & 65535, b >> 16, b & 65535);
      auto name = [] (long v) { return Resampler2::precision_name ((Resampler2::Precision) v); };
      long from = a, runs = 0; int p = bb ? Resampler2::find_precision_for_bits (a) : 0; string s = bb ? "" : name (a); const char *sp = bb ? nullptr : name (a);
      for (long v = a + 1; v <= b + 1; v++)
        {
          if (v <= b)
            {
              if (bb ? p == (int) Resampler2::find_precision_for_bits (v) : (name (v) == sp || s == name (v))) continue;
            }
          if (bb) lg ("%s{\"a\":[%ld,%ld],\"b\":[%ld,%ld],\"p\":%d}", runs ? "," : "", from >> 16, from & 65535, (v - 1) >> 16, (v - 1) & 65535, p);
          else lg ("%s{\"a\":%ld,\"b\":%ld,\"s\":\"%s\"}", runs ? "," : "", from, v - 1, s.c_str());
          if (++runs == 300) break;
          if (v <= b) { from = v; if (bb) p = Resampler2::find_precision_for_bits (v); else { sp = name (v); s = sp; } }
        }
      lg ("]}\n");
      return true;
    }
  if (op == "tfi")
    {
      bool b = Resampler2::test_filter_impl (false);
      lg ("{\"e\":\"tfi\",\"ok\":%d,\"err\":%d}\n", (int) b, err_lines());
      return true;
    }
  return false;
}

static void read_stream (std::istringstream& is)
{
  // stream SID FMT MOD WIN KIND ...     FMT q[SHIFT]|b|n   KIND i (ints) | b (bit patterns) | rep ...
  int sid; is >> sid; Stream& s = streams[sid]; string kind; long n; double scale;
  string fmt; is >> fmt >> s.mod >> s.win >> kind; s.fmt = fmt[0]; s.shift = atoi (fmt.c_str() + 1);
  if (kind == "i") { is >> scale >> n; s.v.resize (n); for (auto& v : s.v) { double t; is >> t; v = t * scale; } }
  else if (kind == "b") { is >> n; s.v.resize (n); for (auto& v : s.v) { long t; is >> t; v = unbits ((int32_t) t); } }
  else if (kind == "lcg")     // lcg SEED N LEVELS : integers in [-LEVELS,LEVELS], reproducible everywhere
    {
      unsigned x; long lev; is >> x >> n >> lev; s.v.resize (n);
      for (auto& v : s.v) { x = x * 1664525u + 1013904223u; v = (long) ((x >> 8) % (2 * lev + 1)) - lev; }
    }
  else if (kind == "per")     // per SEED LEAD N REPS LEVELS : LEAD integers, then REPS times the same N integers
    {
      unsigned x; long lead, rep, lev; is >> x >> lead >> n >> rep >> lev; s.v.resize (lead + n * rep);
      for (long k = 0; k < (long) s.v.size(); k++)
        if (k < lead + n) { x = x * 1664525u + 1013904223u; s.v[k] = (long) ((x >> 8) % (2 * lev + 1)) - lev; }
        else s.v[k] = s.v[k - n];
    }
  else if (kind == "imp")     // imp POS N : a single 1
    {
      long pos; is >> pos >> n; s.v.assign (n, 0.f); if (pos < n) s.v[pos] = 1;
    }
  else if (kind == "sine")    // sine HZ RATE N AMP PHASE
    {
      double hz, rate, amp, ph; is >> hz >> rate >> n >> amp >> ph; s.v.resize (n);
      for (long k = 0; k < n; k++) s.v[k] = amp * sin (2 * M_PI * hz / rate * k + ph);
    }
  else if (kind == "noise0")  // noise0 SEED N Z : N samples of noise in [-1,1], then Z zeros
    {
      unsigned x; long z; is >> x >> n >> z; s.v.assign (n + z, 0.f);
      for (long k = 0; k < n; k++) { x = x * 1664525u + 1013904223u; s.v[k] = (double) x / 2147483648. - 1; }
    }
}

int main (int argc, char **argv)
{
  if (argc != 3) return 2;
  std::ifstream f (argv[1]);
  log_fd = open (argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (!f || log_fd < 0) return 2;
  logbuf = (char *) mmap (0, logcap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  string line; vector<string> ops; string id; int limit = 20;
  while (getline (f, line))
    {
      std::istringstream is (line); string op; is >> op;
      if (op == "stream") read_stream (is);
      else if (op == "limit") is >> limit;
      else if (op == "case") { ops.clear(); id = line.substr (5); }
      else if (op == "end")
        {
          lg ("{\"e\":\"case\",%s}\n", id.c_str()); flush_log();
          pid_t pid = fork();
          if (pid < 0) return 2;
          if (pid == 0)
            {
              err_fd = memfd_create ("err", 0); fcntl (err_fd, F_SETFL, O_APPEND); dup2 (err_fd, 2); dup2 (err_fd, 1); err_seen = 0;
              alarm (limit);
              if (hash_of (id) & 1 && id.find ("\"gold\"") == string::npos) company (hash_of (id));
              for (auto& o : ops)
                {
                  std::istringstream os (o); string w; os >> w;
                  if (!run_op (os, w)) _exit (96);
                  flush_log();
                }
#ifdef SAN_EXIT
              objs.clear(); int e = err_lines();
              exit (e ? 95 : 0);
#else
              _exit (0);
#endif
            }
          int st; while (waitpid (pid, &st, 0) < 0) if (errno != EINTR) return 2;
          if (WIFEXITED (st) && WEXITSTATUS (st) == 96) { fprintf (stderr, "bad op in case %s\n", id.c_str()); return 2; }
          if (WIFEXITED (st) && (WEXITSTATUS (st) == 97 || WEXITSTATUS (st) == 98)) return 2;
          if (WIFSIGNALED (st)) lg ("{\"e\":\"crash\",\"sig\":%d}\n", WTERMSIG (st));
          else if (WEXITSTATUS (st)) lg ("{\"e\":\"crash\",\"sig\":%d}\n", 1000 + WEXITSTATUS (st));
          lg ("{\"e\":\"end\"}\n"); flush_log();
        }
      else if (op.size()) ops.push_back (line);
    }
  return 0;
}
