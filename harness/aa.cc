// Script executor for AlignedArray.  usage: aa SCRIPT OUT.  It decides nothing.
#include "pandaresampler.hh"
#include <cstdint>
#include <cstring>
#include <cerrno>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using PandaResampler::AlignedArray;
using std::string; using std::vector;

/* heap observation; new blocks are filled with garbage and end close to an inaccessible page */
static bool counting = false; static long live_blocks = 0; static int slack = 0;
#ifndef NO_HEAP_HOOKS
extern "C" {
void *__libc_malloc (size_t); void __libc_free (void *);
struct G { char *user, *base; size_t len; };
static G guards[256];
void *__libc_memalign (size_t, size_t); void *__libc_realloc (void *, size_t); void *__libc_calloc (size_t, size_t);
static void *guarded (size_t al, size_t n)
{
  live_blocks++;
  size_t unit = al > 16 ? al : 16;
  size_t need = (n + unit - 1) / unit * unit + (al > 16 ? 0 : 16 * slack), pages = (need + 4095) / 4096; if (!pages) pages = 1;
  char *b = (char *) mmap (0, (pages + 1) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect (b + pages * 4096, 4096, PROT_NONE);
  memset (b, 0xa5, pages * 4096);
  char *u = b + pages * 4096 - need;
  bool kept = false;
  for (auto& g : guards) if (!g.user) { g.user = u; g.base = b; g.len = (pages + 1) * 4096; kept = true; break; }
  if (!kept) _exit (97);
  slack = (slack + 1) % 4;
  return u;
}
void *malloc (size_t n) { return counting ? guarded (16, n) : __libc_malloc (n); }
void *memalign (size_t a, size_t n) { return counting && a <= 4096 ? guarded (a, n) : __libc_memalign (a, n); }
void *aligned_alloc (size_t a, size_t n) { return memalign (a, n); }
int posix_memalign (void **r, size_t a, size_t n) { *r = memalign (a, n); return *r ? 0 : ENOMEM; }
void *calloc (size_t a, size_t n)
{
  if (!counting) return __libc_calloc (a, n);
  void *p = guarded (16, a * n); memset (p, 0, a * n); return p;
}
void free (void *p)
{
  if (!p) return;
  for (auto& g : guards)
    if (g.user == p) { live_blocks--; munmap (g.base, g.len); g.user = 0; return; }
  __libc_free (p);
}
}
#endif

static FILE *out;
static long alive = 0, wrong = 0;
template<int PAD> struct Counted            // knows whether it was constructed
{
  int v; int pad[PAD]; Counted *self;
  static const int PADN = PAD;
  Counted() : v (77), self (this) { alive++; }
  Counted (int x) : v (x), self (this) { alive++; }
  Counted (const Counted& o) : v (o.v), self (this) { if (o.self != &o) wrong++; alive++; }
  Counted& operator= (const Counted& o) { if (self != this || o.self != &o) wrong++; v = o.v; return *this; }
  ~Counted() { if (self != this) wrong++; self = nullptr; alive--; }
  operator int() const { return self == this ? v : -99999; }
};
typedef Counted<5> S;      // 32 bytes
typedef Counted<1> T;      // 16 bytes

template<class E> struct Store
{
  std::map<int, AlignedArray<E> *> a;
  void view()
  {
    fprintf (out, ",\"alive\":%ld,\"wrong\":%ld,\"heap\":%ld,\"arrays\":[", alive, wrong, live_blocks);
    bool first = true;
    for (auto& p : a)
      {
        AlignedArray<E>& x = *p.second; const AlignedArray<E>& c = x;
        size_t n = c.size(); long bad = 0;
        if (n > 5000) n = 5000;
        if ((size_t) (x.end() - x.begin()) != c.size()) bad++;
        for (size_t k = 0; k < n; k++)
          if (&x[k] != x.begin() + k || &c[k] != &x[k]) bad++;
        fprintf (out, "%s{\"i\":%d,\"n\":%zu,\"al\":%d,\"bad\":%ld,\"v\":[", first ? "" : ",", p.first, c.size(), (int) ((uintptr_t) x.begin() & 63), bad);
        for (size_t k = 0; k < n; k++) fprintf (out, k ? ",%d" : "%d", (int) (k & 1 ? c[k] : x.begin()[k]));
        fprintf (out, "]}"); first = false;
      }
    fprintf (out, "]}\n"); fflush (out);
  }
  void op (const string& line)
  {
    std::istringstream is (line); string w; int i, j; is >> w >> i;
    if (w == "new") { size_t n; is >> n; fprintf (out, "{\"e\":\"new\",\"a\":%d,\"n\":%zu", i, n); fflush (out); counting = true; AlignedArray<E> *p = make (n); counting = false; a[i] = p; }
    else if (w == "vec")
      {
        int n; is >> n; vector<E> v; v.reserve (n); fprintf (out, "{\"e\":\"vec\",\"a\":%d,\"x\":[", i);
        for (int k = 0; k < n; k++) { int t; is >> t; v.push_back (E (t)); fprintf (out, k ? ",%d" : "%d", t); }
        fprintf (out, "]"); fflush (out);
        void *m = spot(); counting = true; AlignedArray<E> *p = new (m) AlignedArray<E> (v); counting = false; a[i] = p;
      }
    else if (w == "copy") { is >> j; fprintf (out, "{\"e\":\"copy\",\"a\":%d,\"b\":%d", i, j); fflush (out); void *m = spot(); AlignedArray<E> *s = a[i]; counting = true; AlignedArray<E> *p = new (m) AlignedArray<E> (*s); counting = false; a[j] = p; }
    else if (w == "assign") { is >> j; fprintf (out, "{\"e\":\"assign\",\"a\":%d,\"b\":%d", i, j); fflush (out); AlignedArray<E> *s = a[i], *d = a[j]; counting = true; *d = *s; counting = false; }
    else if (w == "set")
      {
        int k, x; is >> k >> x; fprintf (out, "{\"e\":\"set\",\"a\":%d,\"k\":%d,\"x\":%d", i, k, x); fflush (out);
        if (x & 1) (*a[i])[k - 1] = E (x); else *(a[i]->begin() + (k - 1)) = E (x);
      }
    else if (w == "del") { fprintf (out, "{\"e\":\"del\",\"a\":%d", i); fflush (out); AlignedArray<E> *p = a[i]; a.erase (i); counting = true; p->~AlignedArray<E>(); counting = false; ::operator delete ((void *) p); }
    else if (w == "big")       // big I HI LO COPY: an array of HI*65536+LO elements: initial values, write and read all, copy
      {
        size_t h, l; int cp; is >> h >> l >> cp;
        size_t n = h * 65536 + l; long def = 0, keep = 0, copied = 0; unsigned al;
        alarm (300);
        fprintf (out, "{\"e\":\"big\",\"a\":%d,\"n\":[%zu,%zu]", i, h, l); fflush (out);
        size_t size, span, csize = 0;
        {
          AlignedArray<E> x (n); const AlignedArray<E>& c = x; E d = E();
          for (size_t k = 0; k < n; k++) if (!(x[k] == d)) def++;
          for (size_t k = 0; k < n; k++) x[k] = E (k * 2654435761u >> 24 & 63);
          for (size_t k = 0; k < n; k++) if (!(c[k] == E (k * 2654435761u >> 24 & 63))) keep++;
          size = c.size(); span = x.end() - x.begin(); al = (uintptr_t) x.begin() & 63;
          if (cp)
            {
              AlignedArray<E> y (x); csize = y.size();
              for (size_t k = 0; k < n; k++) { if (!(y[k] == x[k])) copied++; x[k] = E (1); }
              x = y;
              for (size_t k = 0; k < n; k++) if (!(x[k] == E (k * 2654435761u >> 24 & 63))) copied++;
            }
        }
        fprintf (out, ",\"size\":[%zu,%zu],\"span\":[%zu,%zu],\"csize\":[%zu,%zu],\"cp\":%d,\"al\":%u,\"def\":%d,\"keep\":%d,\"copied\":%d", size >> 16, size & 65535, span >> 16, span & 65535,
                 csize >> 16, csize & 65535, cp, al, def > 0, keep > 0, copied > 0);
      }
    view();
  }
  void *spot() { return ::operator new (sizeof (AlignedArray<E>)); }
  AlignedArray<E> *make (size_t n) { counting = false; void *m = spot(); counting = true; return new (m) AlignedArray<E> (n); }
};
template<class E> static void run (const vector<string>& ops) { Store<E> s; for (auto& o : ops) s.op (o); }

int main (int argc, char **argv)
{
  std::ifstream f (argv[1]); out = fopen (argv[2], "w"); if (!f || !out) return 2;
  string line; vector<string> ops; string id, ty;
  while (getline (f, line))
    {
      if (line.compare (0, 5, "case ") == 0) { ops.clear(); id = line.substr (5); size_t q = id.find ("\"t\": \""); ty = id.substr (q + 6, 1); }
      else if (line == "end")
        {
          fprintf (out, "{\"e\":\"case\",%s}\n", id.c_str()); fflush (out);
          pid_t pid = fork(); if (pid < 0) return 2;
          if (pid == 0)
            {
              int fd = open ("/dev/null", O_WRONLY); dup2 (fd, 1); dup2 (fd, 2); alarm (30);
              if (ty == "f") run<float> (ops); else if (ty == "d") run<double> (ops); else if (ty == "c") run<signed char> (ops);
              else if (ty == "s") run<S> (ops); else if (ty == "t") run<T> (ops); else if (ty == "i") run<short> (ops);
              fflush (out); _exit (0);
            }
          int st; while (waitpid (pid, &st, 0) < 0) if (errno != EINTR) return 2;
          fseek (out, 0, SEEK_END);
          if (!WIFEXITED (st) || WEXITSTATUS (st)) fprintf (out, "\n{\"e\":\"crash\",\"sig\":%d}\n", WIFSIGNALED (st) ? WTERMSIG (st) : 1000 + WEXITSTATUS (st));
          fprintf (out, "{\"e\":\"end\"}\n"); fflush (out);
        }
      else if (line.size() && line.compare (0, 6, "limit ") && line.compare (0, 7, "stream ")) ops.push_back (line);
    }
  return 0;
}
