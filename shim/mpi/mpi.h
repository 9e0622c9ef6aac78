// Stand-in for MPI: a world of hx_mpi_size ranks that are run one after the
// other in one process.  A rank that has to wait is abandoned (C++ exception)
// and executed again from the start once the data it waits for exists; what an
// operation already returned is replayed from a log.  Single-rank use needs no
// scheduler.  Mismatched collectives, deadlocks and truncations are failures.
#pragma once
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#ifdef HX_NO_INTRINSICS
[[noreturn]] inline void hx_mpi_fail(const char* m) { std::fprintf(stderr, "%s\n", m); std::abort(); }
inline int hx_mpi_choice(int, int hi) { return hi; }
#else
extern "C" void hx_fail(const char*);
extern "C" int hx_choice(const char*, int, int);
inline void hx_mpi_fail(const char* m) { hx_fail(m); }
inline int hx_mpi_choice(int lo, int hi) { return hx_choice("dims_create", lo, hi); }
#endif

struct HxComm
{
    int id = 0;
    std::vector<int> members; // world ranks, by rank in this communicator
    int ndims = 0;
    int dims[3] = {1, 1, 1};
    int periods[3] = {0, 0, 0};
    int seq = 0;
};
typedef HxComm* MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Fint;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
struct HxReq { bool done = true; void* buf = nullptr; int count = 0, type = 0, src = 0, tag = 0; MPI_Comm comm = nullptr; int op = -1; };
typedef HxReq* MPI_Request;

#define MPI_SUCCESS 0
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_STATUS_IGNORE (static_cast<MPI_Status*>(nullptr))
#define MPI_STATUSES_IGNORE (static_cast<MPI_Status*>(nullptr))
#define MPI_REQUEST_NULL (static_cast<MPI_Request>(nullptr))
#define MPI_IN_PLACE (reinterpret_cast<void*>(-1L))
#define MPI_COMM_NULL (static_cast<MPI_Comm>(nullptr))
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_MAX_LIBRARY_VERSION_STRING 256
enum : int { MPI_DATATYPE_NULL = 0, MPI_DOUBLE = 8, MPI_INT = 4, MPI_FLOAT = 0x104, MPI_CHAR = 1, MPI_BYTE = 0x101, MPI_CXX_BOOL = 0x201, MPI_C_BOOL = 0x301, MPI_LONG = 0x108,
    MPI_UNSIGNED = 0x204, MPI_UNSIGNED_LONG = 0x208, MPI_LONG_LONG = 0x308, MPI_INT64_T = 0x408, MPI_UINT64_T = 0x508, MPI_UINT32_T = 0x304, MPI_INT32_T = 0x404 };
enum : int { MPI_SUM = 1, MPI_MAX, MPI_MIN, MPI_LAND, MPI_LOR, MPI_PROD };
inline std::size_t hx_tsize(MPI_Datatype t) { return static_cast<std::size_t>(t & 0xff); }

struct HxBlocked {};
struct HxMpi
{
    int size = 1, rank = 0;
    bool sched = false;
    HxComm world;
    int ncomm = 0;
    int initialized = 0, finalized = 0, freed = 0, created = 0;
    struct Msg { int comm, src, dst, tag; std::vector<unsigned char> data; bool taken; };
    std::vector<Msg> msgs;
    struct Op { bool done = false; std::vector<unsigned char> data; };
    std::vector<std::vector<Op>> log; // per rank
    int op = 0;
    struct Coll { std::string kind; int comm, seq, type, mop, root, count; std::vector<int> members; std::vector<std::vector<unsigned char>> part; std::vector<int> have; };
    std::vector<Coll> colls;
    bool progress = false;
    void (*dims_hook)(int* dims) = nullptr; // the process grid and the place in it, without any communication
    void (*coords_hook)(int* coords) = nullptr;
    int (*perm)(int cart_rank) = nullptr; // world rank of a Cartesian rank
    void reset(int n, int r)
    {
        size = n; rank = r; sched = false;
        msgs.clear(); colls.clear(); log.clear();
        log.resize(static_cast<std::size_t>(n));
        start(r);
    }
    void start(int r)
    {
        rank = r; op = 0; ncomm = 0; world.id = 0; world.seq = 0; world.ndims = 0;
        world.members.clear();
        for (int i = 0; i < size; ++i) world.members.push_back(i);
        if (log.empty()) log.resize(static_cast<std::size_t>(size));
    }
};
inline HxMpi& hx_mpi()
{
    static HxMpi* m = nullptr;
    if (!m) { m = new HxMpi(); m->reset(1, 0); }
    return *m;
}
#define MPI_COMM_WORLD (&hx_mpi().world)
#define MPI_COMM_SELF (&hx_mpi().world)

// run f(rank) on every rank of a world of n ranks
template <class F>
void hx_mpi_run(int n, F const& f)
{
    HxMpi& m = hx_mpi();
    m.reset(n, 0);
    m.sched = true;
    std::vector<int> done(static_cast<std::size_t>(n), 0);
    int left = n;
    while (left) {
        m.progress = false;
        for (int r = 0; r < n; ++r) {
            if (done[static_cast<std::size_t>(r)]) continue;
            m.start(r);
            try {
                f(r);
                done[static_cast<std::size_t>(r)] = 1;
                --left;
                m.progress = true;
            } catch (HxBlocked&) {
            }
        }
        if (!m.progress) { hx_mpi_fail("MPI deadlock"); return; }
    }
    for (auto& x : m.msgs) if (!x.taken) hx_mpi_fail("MPI message sent but never received");
    m.sched = false;
}
inline void hx_block()
{
    if (!hx_mpi().sched) hx_mpi_fail("MPI deadlock");
    throw HxBlocked {};
}
inline HxMpi::Op& hx_op()
{
    HxMpi& m = hx_mpi();
    auto& l = m.log[static_cast<std::size_t>(m.rank)];
    if (static_cast<std::size_t>(m.op) >= l.size()) l.resize(static_cast<std::size_t>(m.op) + 1);
    return l[static_cast<std::size_t>(m.op++)];
}
// false if the process did this already, before it had to wait
inline bool hx_once()
{
    if (!hx_mpi().sched) return true;
    HxMpi::Op& o = hx_op();
    if (o.done) return false;
    o.done = true;
    hx_mpi().progress = true;
    return true;
}
inline int hx_crank(MPI_Comm c)
{
    if (!c) { hx_mpi_fail("MPI call on MPI_COMM_NULL"); return 0; }
    for (std::size_t i = 0; i < c->members.size(); ++i) if (c->members[i] == hx_mpi().rank) return static_cast<int>(i);
    return MPI_UNDEFINED;
}
inline int MPI_Init(int*, char***) { hx_mpi().initialized++; return 0; }
inline int MPI_Init_thread(int*, char***, int req, int* prov) { hx_mpi().initialized++; if (prov) *prov = req; return 0; }
inline int MPI_Initialized(int* f) { *f = hx_mpi().initialized > 0; return 0; }
inline int MPI_Finalized(int* f) { *f = hx_mpi().finalized > 0; return 0; }
inline int MPI_Finalize() { hx_mpi().finalized++; return 0; }
inline int MPI_Abort(MPI_Comm, int) { hx_mpi_fail("MPI_Abort"); return 0; }
inline int MPI_Get_library_version(char* s, int* n) { s[0] = 'h'; s[1] = 0; *n = 1; return 0; }
inline int MPI_Comm_size(MPI_Comm c, int* n) { if (!c) { hx_mpi_fail("MPI call on MPI_COMM_NULL"); return 1; } *n = static_cast<int>(c->members.size()); return 0; }
inline int MPI_Comm_rank(MPI_Comm c, int* r) { *r = hx_crank(c); return 0; }
inline HxComm* hx_newcomm(std::vector<int> mem)
{
    HxMpi& m = hx_mpi();
    HxComm* c = new HxComm();
    c->id = ++m.ncomm;
    c->members = std::move(mem);
    m.created++;
    return c;
}
inline int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o)
{
    HxComm* n = hx_newcomm(c->members);
    n->ndims = c->ndims;
    for (int i = 0; i < 3; ++i) { n->dims[i] = c->dims[i]; n->periods[i] = c->periods[i]; }
    *o = n;
    return 0;
}
inline int MPI_Comm_free(MPI_Comm* c)
{
    if (!*c) { hx_mpi_fail("MPI_Comm_free on MPI_COMM_NULL"); return 0; }
    delete *c;
    *c = nullptr;
    hx_mpi().freed++;
    return 0;
}
inline int MPI_Dims_create(int n, int nd, int* dims)
{ // any factorisation that respects the entries that are already set
    if (hx_mpi().dims_hook) { hx_mpi().dims_hook(dims); return 0; }
    int rest = n, zeros = 0;
    for (int i = 0; i < nd; ++i) {
        if (dims[i] < 0) { hx_mpi_fail("MPI_Dims_create: negative dimension"); return 1; }
        if (dims[i] == 0) { ++zeros; continue; }
        if (rest % dims[i]) { hx_mpi_fail("MPI_Dims_create: the number of processes is not a multiple of the fixed dimensions"); return 1; }
        rest /= dims[i];
    }
    if (zeros == 0) {
        if (rest != 1) hx_mpi_fail("MPI_Dims_create: dimensions do not match the number of processes");
        return 0;
    }
    for (int i = 0; i < nd; ++i) {
        if (dims[i] != 0) continue;
        if (--zeros == 0) { dims[i] = rest; break; }
        int div[16], k = 0;
        for (int d = 1; d <= rest && k < 16; ++d) if (rest % d == 0) div[k++] = d;
        int c = k > 1 ? hx_mpi_choice(0, k - 1) : 0;
        dims[i] = div[c];
        rest /= div[c];
    }
    return 0;
}
inline int MPI_Cart_create(MPI_Comm old, int nd, int const* dims, int const* periods, int /*reorder*/, MPI_Comm* out)
{
    if (hx_mpi().coords_hook) { // one rank of a process grid of any size
        HxComm* h = hx_newcomm(std::vector<int>(1, 0));
        h->ndims = nd;
        for (int i = 0; i < nd; ++i) { h->dims[i] = dims[i]; h->periods[i] = periods[i]; }
        *out = h;
        return 0;
    }
    int n = 1;
    if (nd > 3) { hx_mpi_fail("MPI_Cart_create: more than 3 dimensions"); return 1; }
    for (int i = 0; i < nd; ++i) { if (dims[i] <= 0) { hx_mpi_fail("MPI_Cart_create: invalid dimension"); return 1; } n *= dims[i]; }
    if (n > static_cast<int>(old->members.size())) { hx_mpi_fail("MPI_Cart_create: more processes than available"); return 1; }
    std::vector<int> mem;
    bool in = false;
    for (int r = 0; r < n; ++r) {
        int w = old->members[static_cast<std::size_t>(hx_mpi().perm ? hx_mpi().perm(r) : r)];
        mem.push_back(w);
        if (w == hx_mpi().rank) in = true;
    }
    if (!in) { ++hx_mpi().ncomm; *out = nullptr; return 0; }
    HxComm* c = hx_newcomm(mem);
    c->ndims = nd;
    for (int i = 0; i < nd; ++i) { c->dims[i] = dims[i]; c->periods[i] = periods[i]; }
    *out = c;
    return 0;
}
inline int MPI_Cart_coords(MPI_Comm c, int rank, int nd, int* coords)
{
    if (hx_mpi().coords_hook) { hx_mpi().coords_hook(coords); return 0; }
    for (int i = c->ndims - 1; i >= 0; --i) { if (i < nd) coords[i] = rank % c->dims[i]; rank /= c->dims[i]; }
    return 0;
}
inline int MPI_Cart_rank(MPI_Comm c, int const* coords, int* rank)
{
    int r = 0;
    for (int i = 0; i < c->ndims; ++i) {
        int x = coords[i];
        if (x < 0 || x >= c->dims[i]) {
            if (!c->periods[i]) { hx_mpi_fail("MPI_Cart_rank: coordinate out of range"); return 1; }
            x = ((x % c->dims[i]) + c->dims[i]) % c->dims[i];
        }
        r = r * c->dims[i] + x;
    }
    *rank = r;
    return 0;
}
inline int MPI_Cart_get(MPI_Comm c, int nd, int* dims, int* periods, int* coords)
{
    for (int i = 0; i < nd; ++i) { dims[i] = c->dims[i]; periods[i] = c->periods[i]; }
    return MPI_Cart_coords(c, hx_crank(c), nd, coords);
}
inline int MPI_Cart_shift(MPI_Comm c, int dir, int disp, int* src, int* dst)
{
    if (dir < 0 || dir >= c->ndims) { hx_mpi_fail("MPI_Cart_shift: invalid direction"); return 1; }
    int co[3] = {0, 0, 0};
    MPI_Cart_coords(c, hx_crank(c), 3, co);
    for (int k = 0; k < 2; ++k) {
        int x[3] = {co[0], co[1], co[2]};
        x[dir] += k == 0 ? -disp : disp;
        int r = MPI_PROC_NULL;
        if (c->periods[dir] || (x[dir] >= 0 && x[dir] < c->dims[dir])) MPI_Cart_rank(c, x, &r);
        *(k == 0 ? src : dst) = r;
    }
    return 0;
}
inline int MPI_Cart_sub(MPI_Comm c, int const* remain, MPI_Comm* out)
{
    if (hx_mpi().coords_hook) { *out = hx_newcomm(std::vector<int>(1, 0)); return 0; }
    int me[3];
    MPI_Cart_coords(c, hx_crank(c), 3, me);
    std::vector<int> mem;
    for (std::size_t r = 0; r < c->members.size(); ++r) {
        int co[3];
        MPI_Cart_coords(c, static_cast<int>(r), 3, co);
        bool same = true;
        for (int i = 0; i < c->ndims; ++i) if (!remain[i] && co[i] != me[i]) same = false;
        if (same) mem.push_back(c->members[r]);
    }
    HxComm* n = hx_newcomm(mem);
    for (int i = 0; i < c->ndims; ++i) if (remain[i]) { n->dims[n->ndims] = c->dims[i]; n->periods[n->ndims++] = c->periods[i]; }
    *out = n;
    return 0;
}
// ---------------------------------------------------------------- messages
inline void hx_post(void const* buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
    HxMpi& m = hx_mpi();
    if (dst == MPI_PROC_NULL) return;
    if (dst < 0 || dst >= static_cast<int>(c->members.size())) { hx_mpi_fail("MPI: invalid destination rank"); return; }
    if (tag < 0) { hx_mpi_fail("MPI: invalid tag"); return; }
    HxMpi::Msg x;
    x.comm = c->id; x.src = m.rank; x.dst = c->members[static_cast<std::size_t>(dst)]; x.tag = tag; x.taken = false;
    x.data.resize(static_cast<std::size_t>(count) * hx_tsize(t));
    if (count) std::memcpy(x.data.data(), buf, x.data.size());
    m.msgs.push_back(std::move(x));
}
inline bool hx_match(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, HxMpi::Op& o)
{
    HxMpi& m = hx_mpi();
    for (auto& x : m.msgs) {
        if (x.taken || x.comm != c->id || x.dst != m.rank || (tag != MPI_ANY_TAG && x.tag != tag)) continue;
        if (src != MPI_ANY_SOURCE && x.src != c->members[static_cast<std::size_t>(src)]) continue;
        if (x.data.size() > static_cast<std::size_t>(count) * hx_tsize(t)) { hx_mpi_fail("MPI: message truncated"); return false; }
        x.taken = true;
        o.data = x.data;
        if (!x.data.empty()) std::memcpy(buf, x.data.data(), x.data.size());
        return true;
    }
    return false;
}
inline int MPI_Send(void const* buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
    HxMpi::Op& o = hx_op();
    if (!o.done) { hx_post(buf, count, t, dst, tag, c); o.done = true; hx_mpi().progress = true; }
    return 0;
}
inline int MPI_Recv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status*)
{
    if (src == MPI_PROC_NULL) return 0;
    if (src >= static_cast<int>(c->members.size())) { hx_mpi_fail("MPI: invalid source rank"); return 1; }
    HxMpi::Op& o = hx_op();
    if (o.done) { if (!o.data.empty()) std::memcpy(buf, o.data.data(), o.data.size()); return 0; }
    if (!hx_match(buf, count, t, src, tag, c, o)) { hx_block(); return 1; }
    o.done = true;
    hx_mpi().progress = true;
    return 0;
}
inline int MPI_Sendrecv(void const* sb, int sc, MPI_Datatype st, int dst, int stag, void* rb, int rc, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* s)
{
    MPI_Send(sb, sc, st, dst, stag, c);
    return MPI_Recv(rb, rc, rt, src, rtag, c, s);
}
inline int MPI_Sendrecv_replace(void* buf, int count, MPI_Datatype t, int dst, int stag, int src, int rtag, MPI_Comm c, MPI_Status* s)
{
    MPI_Send(buf, count, t, dst, stag, c);
    return MPI_Recv(buf, count, t, src, rtag, c, s);
}
inline int MPI_Isend(void const* buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* r)
{
    MPI_Send(buf, count, t, dst, tag, c);
    *r = new HxReq();
    return 0;
}
inline int MPI_Irecv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* r)
{
    HxReq* q = new HxReq();
    q->done = src == MPI_PROC_NULL; q->buf = buf; q->count = count; q->type = t; q->src = src; q->tag = tag; q->comm = c;
    *r = q;
    return 0;
}
inline int MPI_Wait(MPI_Request* r, MPI_Status* s)
{
    if (!*r) return 0;
    if (!(*r)->done) MPI_Recv((*r)->buf, (*r)->count, (*r)->type, (*r)->src, (*r)->tag, (*r)->comm, s);
    delete *r;
    *r = nullptr;
    return 0;
}
inline int MPI_Waitall(int n, MPI_Request* r, MPI_Status*)
{
    for (int i = 0; i < n; ++i) MPI_Wait(r + i, nullptr);
    return 0;
}
// -------------------------------------------------------------- collectives
inline HxMpi::Coll* hx_coll(char const* kind, void const* in, int count, MPI_Datatype t, MPI_Op mop, int root, MPI_Comm c)
{
    HxMpi& m = hx_mpi();
    if (!c) { hx_mpi_fail("MPI call on MPI_COMM_NULL"); return nullptr; }
    int sq = c->seq++;
    HxMpi::Op& o = hx_op();
    HxMpi::Coll* k = nullptr;
    for (auto& x : m.colls) if (x.comm == c->id && x.seq == sq && x.members == c->members) k = &x;
    if (!k) {
        HxMpi::Coll x;
        x.kind = kind; x.comm = c->id; x.seq = sq; x.type = t; x.mop = mop; x.root = root; x.count = count; x.members = c->members;
        x.part.resize(c->members.size());
        x.have.resize(c->members.size());
        m.colls.push_back(x);
        k = &m.colls.back();
    }
    if (k->kind != kind || k->type != t || k->mop != mop || k->root != root || k->count != count) { hx_mpi_fail("MPI: collective operations do not match across ranks"); return nullptr; }
    std::size_t me = static_cast<std::size_t>(hx_crank(c));
    if (!o.done) {
        k->have[me] = 1;
        k->part[me].resize(static_cast<std::size_t>(count) * hx_tsize(t));
        if (in && count) std::memcpy(k->part[me].data(), in, k->part[me].size());
        o.done = true;
        m.progress = true;
    }
    return k;
}
inline bool hx_all(HxMpi::Coll* k) { for (int h : k->have) if (!h) return false; return true; }
inline int MPI_Barrier(MPI_Comm c)
{
    HxMpi::Coll* k = hx_coll("barrier", nullptr, 0, MPI_BYTE, 0, 0, c);
    if (k && !hx_all(k)) hx_block();
    return 0;
}
inline int MPI_Bcast(void* buf, int count, MPI_Datatype t, int root, MPI_Comm c)
{
    if (c && (root < 0 || root >= static_cast<int>(c->members.size()))) { hx_mpi_fail("MPI_Bcast: invalid root"); return 1; }
    bool me = hx_crank(c) == root;
    HxMpi::Coll* k = hx_coll("bcast", me ? buf : nullptr, count, t, 0, root, c);
    if (!k || me) return 0;
    if (!k->have[static_cast<std::size_t>(root)]) { hx_block(); return 1; }
    if (count) std::memcpy(buf, k->part[static_cast<std::size_t>(root)].data(), static_cast<std::size_t>(count) * hx_tsize(t));
    return 0;
}
template <class T>
void hx_combine(T* acc, T const* x, int n, MPI_Op op)
{
    for (int i = 0; i < n; ++i) {
        if (op == MPI_SUM) acc[i] = acc[i] + x[i];
        else if (op == MPI_PROD) acc[i] = acc[i] * x[i];
        else if (op == MPI_MAX) acc[i] = acc[i] < x[i] ? x[i] : acc[i];
        else if (op == MPI_MIN) acc[i] = x[i] < acc[i] ? x[i] : acc[i];
        else if (op == MPI_LAND) acc[i] = acc[i] && x[i];
        else if (op == MPI_LOR) acc[i] = acc[i] || x[i];
        else hx_mpi_fail("MPI: reduction operation");
    }
}
inline int hx_reduce(char const* kind, void const* sb, void* rb, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, bool mine)
{
    void const* in = sb == MPI_IN_PLACE ? rb : sb;
    HxMpi::Coll* k = hx_coll(kind, in, count, t, op, root, c);
    if (!k || !mine) return 0;
    if (!hx_all(k)) { hx_block(); return 1; }
    std::memcpy(rb, k->part[0].data(), static_cast<std::size_t>(count) * hx_tsize(t));
    for (std::size_t i = 1; i < k->part.size(); ++i) {
        void* p = k->part[i].data();
        if (t == MPI_DOUBLE) hx_combine(static_cast<double*>(rb), static_cast<double const*>(p), count, op);
        else if (t == MPI_INT) hx_combine(static_cast<int*>(rb), static_cast<int const*>(p), count, op);
        else if (t == MPI_CXX_BOOL || t == MPI_C_BOOL) hx_combine(static_cast<bool*>(rb), static_cast<bool const*>(p), count, op);
        else if (hx_tsize(t) == 8) hx_combine(static_cast<long*>(rb), static_cast<long const*>(p), count, op);
        else hx_mpi_fail("MPI: reduction type");
    }
    return 0;
}
inline int MPI_Allreduce(void const* sb, void* rb, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return hx_reduce("allreduce", sb, rb, count, t, op, 0, c, true); }
inline int MPI_Reduce(void const* sb, void* rb, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return hx_reduce("reduce", sb, rb, count, t, op, root, c, hx_crank(c) == root); }
inline double MPI_Wtime() { return 0; }
