// C17: library objects created, used and destroyed by several threads, sequentially and concurrently, on a
// stand-in MPI that records how it is used. One process per scenario (the library's state is process-global).
#include <mpi.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <new>
#include <thread>
#include "vh.hpp"
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/math.hpp>
#include <vsip/parallel.hpp>
#include <ovxx/allocator.hpp>
#include <ovxx/aligned_allocator.hpp>
using namespace vh;
using namespace vsip;

static Out *out;
static thread_local int me = -1;
static thread_local unsigned long long rs;
static std::atomic<int> delays(0);
static std::atomic_flag lk = ATOMIC_FLAG_INIT;
struct Spin { Spin() { while (lk.test_and_set()) sched_yield();} ~Spin() { lk.clear();}};
static std::atomic<void*> attached(nullptr);
static std::atomic<bool> inited(false), fini(false);
static void pause_()
{
  if (!delays || me < 0) return;
  rs = rs * 6364136223846793005ull + 1442695040888963407ull;
  unsigned k = (rs >> 33) % 8;
  if (k == 0) usleep(900); else if (k == 1) usleep(200); else if (k < 5) sched_yield();
}
static void mpi(char const *f) { Spin s; (*out)(Ev("mpi").i("t", me).s("f", f));}
static void used() { if (!inited || fini) mpi("bad");}

extern "C"
{
int MPI_Initialized(int *f) { *f = inited; pause_(); return 0;}
int MPI_Finalized(int *f) { *f = fini; pause_(); return 0;}
int MPI_Init(int *, char ***) { pause_(); { Spin s; (*out)(Ev("mpi").i("t", me).s("f", "init")); inited = true;} pause_(); return 0;}
int MPI_Init_thread(int *, char ***, int, int *p) { if (p) *p = MPI_THREAD_MULTIPLE; return MPI_Init(0, 0);}
int MPI_Finalize() { { Spin s; (*out)(Ev("mpi").i("t", me).s("f", inited && !fini ? "fini" : "bad")); fini = true; attached = nullptr;} pause_(); return 0;}
int MPI_Buffer_attach(void *b, int) { used(); pause_(); { Spin s; (*out)(Ev("mpi").i("t", me).s("f", "attach")); attached = b;} pause_(); return 0;}
int MPI_Buffer_detach(void *b, int *n) { used(); { Spin s; (*out)(Ev("mpi").i("t", me).s("f", "detach")); *(void**)b = attached; attached = nullptr; *n = 0;} pause_(); return 0;}
int MPI_Comm_rank(MPI_Comm, int *r) { used(); *r = 0; pause_(); return 0;}
int MPI_Comm_size(MPI_Comm, int *r) { used(); *r = 1; pause_(); return 0;}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *d) { used(); *d = c; return 0;}
int MPI_Comm_free(MPI_Comm *) { used(); return 0;}
int MPI_Comm_create(MPI_Comm c, MPI_Group, MPI_Comm *d) { used(); *d = c; return 0;}
int MPI_Comm_group(MPI_Comm, MPI_Group *g) { used(); *g = MPI_GROUP_EMPTY; return 0;}
int MPI_Group_incl(MPI_Group g, int, const int *, MPI_Group *r) { used(); *r = g; return 0;}
int MPI_Group_free(MPI_Group *) { return 0;}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { used(); return 0;}
int MPI_Error_string(int, char *s, int *n) { *s = 0; *n = 0; return 0;}
int MPI_Type_contiguous(int, MPI_Datatype t, MPI_Datatype *r) { used(); *r = t; return 0;}
int MPI_Type_commit(MPI_Datatype *) { used(); return 0;}
int MPI_Barrier(MPI_Comm) { used(); return 0;}
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm) { used(); return 0;}
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op, MPI_Comm)
{ used(); std::memcpy(b, a, n * (t == MPI_DOUBLE ? 8 : 4)); return 0;}

int pthread_mutex_lock(pthread_mutex_t *m)
{
  static int (*f)(pthread_mutex_t*) = (int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  pause_(); return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
  static int (*f)(pthread_mutex_t*) = (int(*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int r = f(m); pause_(); return r;
}
}
static void freed(void *p) { if (p && p == attached) mpi("freed"); std::free(p);}
void *operator new(size_t n) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;}
void *operator new[](size_t n) { return operator new(n);}
void operator delete(void *p) noexcept { freed(p);}
void operator delete[](void *p) noexcept { freed(p);}
void operator delete(void *p, size_t) noexcept { freed(p);}
void operator delete[](void *p, size_t) noexcept { freed(p);}

struct Cust : ovxx::allocator
{
  ll n; Cust() : n(0) {}
private:
  void *allocate(size_t s) { ++n; return std::malloc(s ? s : 1);}
  void deallocate(void *p, size_t) { std::free(p);}
};
struct Worker
{
  int id;
  std::thread th;
  std::mutex m; std::condition_variable cv;
  std::deque<std::string> q; bool busy, stop;
  std::vector<std::unique_ptr<vsipl> > objs;
  std::vector<Vector<float>*> vs;
  Cust cust; ovxx::allocator *lib;
  Worker(int i, unsigned long long seed) : id(i), busy(false), stop(false), lib(0) { th = std::thread([=] { me = i; rs = seed * 7919 + i * 104729 + 3; loop();});}
  void loop()
  {
    for (;;)
    {
      std::string op;
      {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { return stop || !q.empty();});
        if (q.empty()) return;
        op = q.front();
      }
      pause_();
      exec(op);
      { std::unique_lock<std::mutex> l(m); q.pop_front(); cv.notify_all();}
    }
  }
  void wait() { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return q.empty();});}
  void push(std::vector<std::string> const &o) { std::unique_lock<std::mutex> l(m); q.insert(q.end(), o.begin(), o.end()); cv.notify_all();}
  void end() { { std::unique_lock<std::mutex> l(m); stop = true; cv.notify_all();} th.join();}
  void log(Ev const &e) { Spin s; (*out)(e);}
  void exec(std::string const &op)
  {
    if (op == "c" || op == "C")
    {
      log(Ev("call").i("t", id).s("w", "create"));
      bool ok = true;
      if (op == "c") objs.emplace_back(new vsipl);
      else
      {
        char a0[] = "prog", a1[] = "-x", a2[] = "arg"; char *av[] = {a0, a1, a2, 0}; char **ap = av; int ac = 3;
        objs.emplace_back(new vsipl(ac, ap));
        ok = ac == 3 && ap == av && av[0] == a0 && av[1] == a1 && av[2] == a2 && !av[3];
      }
      if (objs.size() == 1) lib = ovxx::allocator::get_default();
      log(Ev("ret").i("t", id).s("w", "create").b("ok", ok));
    }
    else if (op[0] == 'd') // d0: the oldest object first, d1: the newest first
    {
      log(Ev("call").i("t", id).s("w", "destroy"));
      if (op == "d0") objs.erase(objs.begin()); else objs.pop_back();
      log(Ev("ret").i("t", id).s("w", "destroy").b("ok", true));
    }
    else if (op == "u")
    {
      log(Ev("call").i("t", id).s("w", "use"));
      ovxx::allocator *a = ovxx::allocator::get_default();
      ll n0 = cust.n;
      bool ok;
      {
        Vector<float> v(17, 2.f), w(17);
        w = v * 3.f + 1.f;
        Vector<double, Dense<1, double, row1_type, Map<> > > g(5, 1.);
        g = g + 1.;
        ok = sumval(w) == 119 && g.local().get(4) == 2 && processor_set().size() == 1 && processor_set().get(0) == 0 && local_processor_index() == 0;
      }
      log(Ev("ret").i("t", id).s("w", "use").b("ok", ok).i("np", num_processors()).i("lp", local_processor()).i("def", a == lib ? 0 : a == &cust ? 1 : 9).b("via", cust.n > n0));
    }
    else if (op == "k") // a vector that outlives this operation
    {
      log(Ev("call").i("t", id).s("w", "keep"));
      vs.push_back(new Vector<float>(9, 5.f));
      log(Ev("ret").i("t", id).s("w", "keep").b("ok", true));
    }
    else if (op == "K")
    {
      log(Ev("call").i("t", id).s("w", "drop"));
      bool ok = true;
      for (size_t i = 0; i < vs.size(); ++i) { ok = ok && sumval(*vs[i]) == 45; delete vs[i];}
      vs.clear();
      log(Ev("ret").i("t", id).s("w", "drop").b("ok", ok));
    }
    else if (op == "s") { ovxx::allocator::set_default(&cust); log(Ev("setdef").i("t", id).i("d", 1));}
    else if (op == "S") { ovxx::allocator::set_default(lib); log(Ev("setdef").i("t", id).i("d", 0));}
    else if (op == "i") { int a = 0; MPI_Init(&a, 0); inited = true;}
    else if (op == "f") MPI_Finalize();
    else std::_Exit(4);
  }
};

static void child(std::vector<Line> const &sc)
{
  alarm(25);
  std::vector<std::unique_ptr<Worker> > w;
  ll seed = 0, nt = 0;
  for (size_t k = 0; k < sc.size(); ++k)
  {
    Line l = sc[k];
    if (l.op == "th")
    {
      nt = l.i(); seed = l.i();
      for (ll i = 0; i < nt; ++i) w.emplace_back(new Worker(i, seed));
    }
    else if (l.op == "s") { ll t = l.i(); delays = 0; w[t]->push({l.s()}); w[t]->wait();}
    else if (l.op == "p")
    {
      delays = 1;
      std::vector<std::vector<std::string> > ops(nt);
      while (l.more()) { ll t = l.i(); ll n = l.i(); while (n--) ops[t].push_back(l.s());}
      for (ll i = 0; i < nt; ++i) if (!ops[i].empty()) w[i]->push(ops[i]);
      for (ll i = 0; i < nt; ++i) w[i]->wait();
      delays = 0;
    }
    else if (l.op == "new") { ll t = l.i(); w[t]->end(); w[t].reset(new Worker(t, seed + 77));}   // a fresh thread under the same name
    else if (l.op == "q") { Spin s; (*out)(Ev("quiet").b("inited", inited).b("fini", fini).b("att", attached != nullptr));}
    else std::_Exit(4);
  }
  for (size_t i = 0; i < w.size(); ++i) w[i]->end();
  std::_Exit(0);
}
int main(int argc, char **argv)
{
  std::ifstream is(argv[1]);
  out = new Out(argv[2]);
  std::vector<std::vector<Line> > scs;
  Line l;
  while (read_line(is, l)) { if (l.op == "begin") scs.emplace_back(); else scs.back().push_back(l);}
  for (size_t i = 0; i < scs.size(); ++i)
  {
    (*out)(Ev("begin"));
    pid_t p = fork();
    if (!p) child(scs[i]);
    int st; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4) return 4;
    if (!WIFEXITED(st) || WEXITSTATUS(st)) (*out)(Ev("died").i("st", WIFEXITED(st) ? 1000 + WEXITSTATUS(st) : WTERMSIG(st)));
    else (*out)(Ev("end"));
  }
}
