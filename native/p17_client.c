/* native contract run for P17: transfers through the client's entry points against model servers that store what they receive */
#define _GNU_SOURCE
#include "nat.h"
#include SRC_C
#include SRC_S
int pdc_server_num_g, pdc_client_mpi_rank_g, pdc_server_rank_g;
#define MAXO 4
#define MAXS 9
#define MAXR 64
typedef struct {
    uint64_t id; int nd, own; uint64_t dim[3]; size_t unit, n;
    unsigned char *val, *set;           /* what was written last through the API; set: 1 known, 2 undetermined (a pending write) */
    unsigned char *srv[MAXS]; unsigned char *has[MAXS];
    struct _pdc_obj_info info; struct pdc_obj_info pub; struct _pdc_obj_prop prop; struct pdc_obj_prop prop_pub; pdc_metadata_t *meta;
} obj_t;
static obj_t O[MAXO];
static int nobj;
/* handles */
static struct _pdc_id_info H[MAXR];
static int nh;
struct _pdc_id_info *PDC_find_id(pdcid_t id) { return id >= 1 && id <= (pdcid_t)nh ? &H[id - 1] : NULL; }
pdcid_t PDC_id_register(PDC_type_t t, void *o) { if (nh >= MAXR) abort(); H[nh].obj_ptr = o; return ++nh; }
int PDC_dec_ref(pdcid_t id) { return 0; }
void *PDC_malloc(size_t n) { return malloc(n); }
static size_t unit_now;
int PDC_get_var_type_size(pdc_var_type_t t) { return (int)unit_now; }
uint32_t PDC_get_client_data_server(void) { return 0; }
#ifdef ENABLE_MPI
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = 0; return 0; }
#endif
/* servers */
static struct pend { pdcid_t id; int server, access, done, waited; obj_t *o; int nd; uint64_t off[3], len[3], dims[3]; char *buf; } P[512];
static int np;
static obj_t *obj_of(pdcid_t id) { for (int i = 0; i < nobj; i++) if (O[i].id == id) return &O[i]; NFAIL("request for an unknown object %lu", (unsigned long)id); return 0; }
static void
serve(struct pend *p)
{
    if (p->done) return;
    p->done = 1;
    obj_t *o = p->o;
    uint64_t L[3] = {1, 1, 1}, F[3] = {0, 0, 0}, D[3] = {1, 1, 1};
    for (int d = 0; d < o->nd; d++) L[d] = p->len[d], F[d] = p->off[d], D[d] = o->dim[d];
    char *b = p->buf;
    for (uint64_t x = 0; x < L[0]; x++) for (uint64_t y = 0; y < L[1]; y++) for (uint64_t z = 0; z < L[2]; z++, b += o->unit) {
        uint64_t q = ((F[0] + x) * D[1] + F[1] + y) * D[2] + F[2] + z;
        if (p->access == PDC_WRITE) memcpy(o->srv[p->server] + q * o->unit, b, o->unit), o->has[p->server][q] = 1;
        else memcpy(b, o->srv[p->server] + q * o->unit, o->unit);
    }
}
static pdcid_t
request(obj_t *o, uint32_t server, int ondim, const uint64_t *dims, int rnd_, const uint64_t *off, const uint64_t *len, size_t unit, int access, char *buf)
{
    struct pend *p = &P[np++];
    CHECK(np < 500, "too many requests for one transfer");
    memset(p, 0, sizeof *p);
    p->id = 1000 + np, p->server = server, p->access = access, p->o = o, p->buf = buf;
    CHECK((int)server < pdc_server_num_g, "request for server %u of %d", server, pdc_server_num_g);
    CHECK(ondim == o->nd && rnd_ == o->nd && unit == o->unit, "request for object %lu: %d/%d dimensions, element size %lu", (unsigned long)o->id, ondim, rnd_, (unsigned long)unit);
    CHECK(!o->own || (int)server == o->own - 1, "object %lu lives on server %d, request goes to %u", (unsigned long)o->id, o->own - 1, server);
    for (int d = 0; d < o->nd; d++) {
        p->off[d] = off[d], p->len[d] = len[d];
        CHECK(dims[d] == o->dim[d], "request for object %lu: dimension %d is %lu, not %lu", (unsigned long)o->id, d, (unsigned long)dims[d], (unsigned long)o->dim[d]);
        CHECK(off[d] + len[d] <= o->dim[d], "request outside object %lu: dimension %d, %lu + %lu", (unsigned long)o->id, d, (unsigned long)off[d], (unsigned long)len[d]);
    }
    TR("  server %u: %s object %lu [%lu %lu %lu] + [%lu %lu %lu]\n", server, access == PDC_WRITE ? "write" : "read", (unsigned long)o->id, p->off[0], p->off[1], p->off[2], p->len[0], p->len[1], p->len[2]);
    return p->id;
}
perr_t
PDC_Client_transfer_request(void *buf, pdcid_t obj_id, uint32_t server, int ondim, uint64_t *dims, int rnd_, uint64_t *off, uint64_t *len, size_t unit, pdc_access_t access, pdcid_t *id)
{
    *id = request(obj_of(obj_id), server, ondim, dims, rnd_, off, len, unit, access, buf);
    if (rnd(2)) serve(&P[np - 1]);
    return SUCCEED;
}
perr_t
PDC_Client_transfer_request_all(int n, pdc_access_t access, uint32_t server, char *bulk, hg_size_t size, uint64_t *ids)
{
    transfer_request_all_data r;
    memset(&r, 0, sizeof r);
    r.n_objs = n;
    size_t want = 0;
    char *copy = malloc(size);     /* the server has its own copy of the message, and the data of a read comes back over it */
    memcpy(copy, bulk, size);
    parse_bulk_data(copy, &r, access);
    char *back = bulk;
    for (int i = 0; i < n; i++) {
        obj_t *o = obj_of(r.obj_id[i]);
        size_t m = r.unit[i];
        for (int d = 0; d < r.remote_ndim[i]; d++) m *= r.remote_length[i][d];
        want += 24 + 24 * r.remote_ndim[i] + (access == PDC_WRITE ? m : 0);
        ids[i] = request(o, server, r.obj_ndim[i], r.obj_dims[i], r.remote_ndim[i], r.remote_offset[i], r.remote_length[i], r.unit[i], access, access == PDC_WRITE ? r.data_buf[i] : back);
        if (access == PDC_WRITE) serve(&P[np - 1]);
        back += m;
    }
    CHECK(access == PDC_WRITE ? want == size : want <= size && (size_t)(back - bulk) <= size, "a message of %lu bytes, %lu needed", (unsigned long)size, (unsigned long)want);
    free(r.obj_id), free(r.obj_ndim), free(r.remote_ndim), free(r.remote_offset), free(r.unit), free(r.data_buf), free(copy);
    return SUCCEED;
}
static void
waited(pdcid_t id, uint32_t server)
{
    for (int i = 0; i < np; i++)
        if (P[i].id == id) {
            CHECK(P[i].server == (int)server, "request %lu of server %d waited for at server %u", (unsigned long)id, P[i].server, server);
            CHECK(!P[i].waited, "request %lu waited for twice", (unsigned long)id);
            P[i].waited = 1;
            serve(&P[i]);
            return;
        }
    NFAIL("wait for a request that was never made: %lu", (unsigned long)id);
}
perr_t PDC_Client_transfer_request_wait(pdcid_t id, uint32_t server, int access) { waited(id, server); return SUCCEED; }
perr_t PDC_Client_transfer_request_wait_all(int n, pdcid_t *id, uint32_t server) { for (int i = 0; i < n; i++) waited(id[i], server); return SUCCEED; }
perr_t
PDC_Client_transfer_request_status(pdcid_t id, uint32_t server, pdc_transfer_status_t *c)
{
    for (int i = 0; i < np; i++)
        if (P[i].id == id) {
            CHECK(P[i].server == (int)server, "status of a request of server %d asked at %u", P[i].server, server);
            *c = P[i].done || rnd(2) ? PDC_TRANSFER_STATUS_COMPLETE : PDC_TRANSFER_STATUS_PENDING;
            if (*c == PDC_TRANSFER_STATUS_COMPLETE) serve(&P[i]);
            return SUCCEED;
        }
    NFAIL("status of a request that was never made: %lu", (unsigned long)id);
    return FAIL;
}

/* transfers */
typedef struct { pdcid_t h; obj_t *o; int wr, started, all, n; uint64_t loff[3], roff[3], len[3]; unsigned char *user, *before; struct pdc_region_info rl, rr; } tr_t;
static uint64_t at3(const obj_t *o, const uint64_t *off, const uint64_t *x)
{
    uint64_t q = 0;
    for (int d = 0; d < o->nd; d++) q = q * o->dim[d] + off[d] + x[d];
    return q;
}
static void each(tr_t *t, void (*f)(tr_t *, uint64_t, uint64_t))
{
    uint64_t L[3] = {1, 1, 1}, x[3];
    for (int d = 0; d < t->o->nd; d++) L[d] = t->len[d];
    for (x[0] = 0; x[0] < L[0]; x[0]++) for (x[1] = 0; x[1] < L[1]; x[1]++) for (x[2] = 0; x[2] < L[2]; x[2]++) f(t, at3(t->o, t->loff, x), at3(t->o, t->roff, x));
}
static void wrote(tr_t *t, uint64_t l, uint64_t r) { memcpy(t->o->val + r * t->o->unit, t->user + l * t->o->unit, t->o->unit); t->o->set[r] = 1; }
static void must_read(tr_t *t, uint64_t l, uint64_t r)
{
    if (t->o->set[r] == 1) CHECK(!memcmp(t->user + l * t->o->unit, t->o->val + r * t->o->unit, t->o->unit), "element %lu of the object read into element %lu of the buffer differs from the one written last", (unsigned long)r, (unsigned long)l);
    memcpy(t->before + l * t->o->unit, t->user + l * t->o->unit, t->o->unit);
}
static uint64_t h;
static void
make(tr_t *t, obj_t *o, int wr)
{
    memset(t, 0, sizeof *t);
    t->o = o, t->wr = wr;
    for (int d = 0; d < o->nd; d++) {
        t->len[d] = rnd(3) ? 1 + rnd(o->dim[d]) : o->dim[d];
        t->loff[d] = rnd(o->dim[d] - t->len[d] + 1), t->roff[d] = rnd(o->dim[d] - t->len[d] + 1);
    }
    t->user = malloc(o->n), t->before = malloc(o->n);
    for (size_t i = 0; i < o->n; i++) t->user[i] = t->before[i] = rnd(256);
    t->rl.ndim = t->rr.ndim = o->nd, t->rl.offset = t->loff, t->rl.size = t->rr.size = t->len, t->rr.offset = t->roff;
    pdcid_t l = PDC_id_register(PDC_REGION, &t->rl), r = PDC_id_register(PDC_REGION, &t->rr), oi = PDC_id_register(PDC_OBJ, &o->info);
    unit_now = o->unit;
    t->h = PDCregion_transfer_create(t->user, wr ? PDC_WRITE : PDC_READ, oi, l, r);
    CHECK(t->h > 0, "create failed");
    h = nat_hash(t->len, 24, h), h = nat_hash(t->roff, 24, nat_hash(t->loff, 24, h + wr));
    TR("%s object %lu (%dD %lu,%lu,%lu unit %lu %s): buffer at %lu,%lu,%lu object at %lu,%lu,%lu size %lu,%lu,%lu\n", wr ? "write" : "read", (unsigned long)o->id, o->nd, o->dim[0], o->dim[1], o->dim[2], (unsigned long)o->unit,
       o->own ? "on one server" : "over all servers", t->loff[0], t->loff[1], t->loff[2], t->roff[0], t->roff[1], t->roff[2], t->len[0], t->len[1], t->len[2]);
}
static void finish(tr_t *t)
{
    if (!t->wr) each(t, must_read);
    CHECK(!memcmp(t->user, t->before, t->o->n), t->wr ? "a write changed the user buffer" : "a read changed the user buffer outside the region");
}
static void listed(void)
{
    for (int i = 0; i < nobj; i++) {
        int n = 0;
        pdc_local_transfer_request *e = 0;
        for (pdc_local_transfer_request *p = O[i].info.local_transfer_request_head; p; p = p->next) n++, e = p;
        CHECK(n == O[i].info.local_transfer_request_size, "%d requests listed, %d counted", n, O[i].info.local_transfer_request_size);
        if (e) CHECK(e == O[i].info.local_transfer_request_end, "the end of the list of requests is not its last element");
    }
}
static void
history(void)
{
    nat_case();
    TR0();
    h = 17;
    nh = 0, nobj = 1 + rnd(MAXO);
    pdc_server_num_g = 1 + rnd(rnd(3) ? 4 : MAXS);
    TR("%d servers\n", pdc_server_num_g);
    for (int i = 0; i < nobj; i++) {
        obj_t *o = &O[i];
        memset(o, 0, sizeof *o);
        o->id = 70 + i, o->nd = 1 + rnd(3), o->unit = 1 + rnd(8), o->n = o->unit;
        for (int d = 0; d < o->nd; d++) o->dim[d] = 1 + rnd(rnd(2) ? 12 : 4), o->n *= o->dim[d];
        o->own = rnd(2) ? 0 : 1 + rnd(pdc_server_num_g);
        o->val = malloc(o->n), o->set = calloc(o->n, 1);
        for (int s = 0; s < pdc_server_num_g; s++) {
            o->srv[s] = malloc(o->n), o->has[s] = calloc(o->n, 1);
            for (size_t k = 0; k < o->n; k++) o->srv[s][k] = rnd(256);
        }
        o->meta = calloc(1, sizeof *o->meta);
        o->meta->region_partition = o->own ? PDC_OBJ_STATIC : PDC_REGION_STATIC, o->meta->data_server_id = o->own ? o->own - 1 : 77;
        o->info.obj_info_pub = &o->pub, o->info.obj_pt = &o->prop, o->info.metadata = o->meta, o->prop.obj_prop_pub = &o->prop_pub;
        o->pub.meta_id = o->id, o->prop_pub.ndim = o->nd, o->prop_pub.dims = o->dim, o->prop_pub.consistency = rnd(6) ? PDC_CONSISTENCY_COMMIT : PDC_CONSISTENCY_POSIX;
        h = nat_hash(o->dim, 24, h + o->own);
    }
    nat_note(h);
    for (int s = 1 + rnd(6); s-- && nh < MAXR - 20;) {
        /* a batch: requests on distinct objects, or only reads, started and waited for one by one or together */
        tr_t t[MAXO];
        int n = 1 + rnd(nobj), wr_all = rnd(2);
        np = 0;
        for (int i = 0; i < n; i++) make(&t[i], &O[i], wr_all ? 1 : rnd(2));
        pdcid_t ids[MAXO];
        for (int rep = 1 + !rnd(4); rep--;) {
            int all = rnd(2), posix = 0;
            np = 0;
            for (int i = 0; i < n; i++) ids[i] = t[i].h, posix |= t[i].o->prop_pub.consistency == PDC_CONSISTENCY_POSIX;
            for (int i = n; i > 1; i--) { int k = rnd(i); pdcid_t x = ids[i - 1]; ids[i - 1] = ids[k], ids[k] = x; }
            h = nat_hash(ids, sizeof ids[0] * n, h + all);
            if (all) CHECK(PDCregion_transfer_start_all(ids, n) == SUCCEED, "start_all failed");
            else for (int i = 0; i < n; i++) CHECK(PDCregion_transfer_start(ids[i]) == SUCCEED, "start failed");
            listed();
            if (!posix && !rnd(9)) for (int i = 0; i < n; i++) CHECK(PDCregion_transfer_start(ids[i]) != SUCCEED, "a transfer that runs was started again");
            if (all && !posix) CHECK(PDCregion_transfer_wait_all(ids, n) == SUCCEED, "wait_all failed");
            else for (int i = 0; i < n; i++) {
                if (rnd(3)) CHECK(PDCregion_transfer_wait(ids[i]) == SUCCEED, "wait failed");
                else {
                    pdc_transfer_status_t c = PDC_TRANSFER_STATUS_NOT_FOUND;
                    for (int k = 0; k < 200; k++) { PDCregion_transfer_status(ids[i], &c); if (c == PDC_TRANSFER_STATUS_COMPLETE) break; }
                    if (c != PDC_TRANSFER_STATUS_COMPLETE) PDCregion_transfer_wait(ids[i]);
                }
            }
            listed();
            for (int i = 0; i < nobj; i++) CHECK(O[i].info.local_transfer_request_size == 0, "a request is still listed after the wait");
            for (int i = 0; i < np; i++) CHECK(P[i].waited || P[i].done, "a request was never completed");
            for (int i = 0; i < n; i++) if (t[i].wr) each(&t[i], wrote);
            for (int i = 0; i < n; i++) finish(&t[i]);
        }
        for (int i = 0; i < n; i++) free(t[i].user), free(t[i].before);
    }
    for (int i = 0; i < nobj; i++) {
        free(O[i].val), free(O[i].set), free(O[i].meta);
        for (int s = 0; s < pdc_server_num_g; s++) free(O[i].srv[s]), free(O[i].has[s]);
    }
    SAMPLE("history with %d objects, %d servers", nobj, pdc_server_num_g);
}
int main(int argc, char **argv)
{
    nat_init(argc, argv);
    while (nat_time_left(1)) history();
    return nat_done();
}
