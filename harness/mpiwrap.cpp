// Interposes on MPI: optional delays before every call (VH_DELAY=seed), synchronous sends
// (VH_SSEND=1: a send completes only once it is matched, the least buffering MPI allows), and
// counts of the messages sent to and received from every rank.
#include <mpi.h>
#include <cstdlib>
#include <unistd.h>
#include <vector>
namespace mpiw
{
std::vector<long long> sent(64), rcvd(64);
static unsigned long long st; static int delay = -1, ssend;
static void tick()
{
  if (delay < 0)
  {
    char const *d = std::getenv("VH_DELAY"), *s = std::getenv("VH_SSEND");
    delay = d ? std::atoi(d) : 0; ssend = s ? std::atoi(s) : 0;
    int r; PMPI_Comm_rank(MPI_COMM_WORLD, &r);
    st = delay * 1000003ull + r * 7919ull + 17;
  }
  if (!delay) return;
  st = st * 6364136223846793005ull + 1442695040888963407ull;
  unsigned k = (st >> 33) % 16;
  if (k == 0) usleep(600); else if (k < 3) usleep(60);
}
}
using namespace mpiw;
extern "C"
{
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r)
{ tick(); sent[d]++; return ssend ? PMPI_Issend(b, n, t, d, tag, c, r) : PMPI_Isend(b, n, t, d, tag, c, r);}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{ tick(); sent[d]++; return ssend ? PMPI_Ssend(b, n, t, d, tag, c) : PMPI_Send(b, n, t, d, tag, c);}
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{ tick(); sent[d]++; return PMPI_Bsend(b, n, t, d, tag, c);}
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st)
{ MPI_Status x; tick(); int e = PMPI_Recv(b, n, t, s, tag, c, &x); rcvd[x.MPI_SOURCE]++; if (st != MPI_STATUS_IGNORE) *st = x; return e;}
int MPI_Wait(MPI_Request *r, MPI_Status *s) { tick(); return PMPI_Wait(r, s);}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { tick(); return PMPI_Bcast(b, n, t, root, c);}
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { tick(); return PMPI_Allreduce(a, b, n, t, o, c);}
int MPI_Barrier(MPI_Comm c) { tick(); return PMPI_Barrier(c);}
}
