/* native contract run for P14: server storage against an in-memory array per object (POSIX files in the scratch directory) */
#define _GNU_SOURCE
#include "nat.h"
#include <sys/stat.h>
#include <sys/types.h>
#include SRC_C
extern data_server_region_t *dataserver_region_g;
int pdc_server_rank_g;
#ifdef ENABLE_MPI
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = 0; return 0; }
#endif
void PDC_mkdir(const char *dir)
{
    char tmp[1000];
    snprintf(tmp, sizeof tmp, "%s", dir);
    for (char *p = tmp + 1; *p; p++) if (*p == '/') { *p = 0; mkdir(tmp, 0700); *p = '/'; }
}
#define MAXD 24
typedef struct { uint64_t id; int nd, flat; uint64_t dim[3]; size_t unit; unsigned char *val, *set; } obj_t;
static uint64_t next_id = 7;
static uint64_t total(obj_t *o) { uint64_t n = 1; for (int d = 0; d < o->nd; d++) n *= o->dim[d]; return n; }
static void
pick(obj_t *o, uint64_t *off, uint64_t *len)
{
    for (int d = 0; d < 3; d++) off[d] = 77, len[d] = 99; /* unused dimensions hold anything */
    for (int d = 0; d < o->nd; d++) {
        if (!rnd(4)) off[d] = 0, len[d] = o->dim[d];
        else { len[d] = 1 + rnd(rnd(2) ? o->dim[d] : 1 + o->dim[d] / 3); off[d] = rnd(o->dim[d] - len[d] + 1); }
    }
}
static uint64_t h;
static void
io(obj_t *o, int wr)
{
    uint64_t off[3], len[3], n = o->unit;
    pick(o, off, len);
    for (int d = 0; d < o->nd; d++) n *= len[d];
    TR("%s object %lu (%dD, unit %lu%s%s): offset %lu,%lu,%lu size %lu,%lu,%lu\n", wr ? "write" : "read", o->id, o->nd, o->unit, o->flat ? ", flat file" : "", data_sieving_g ? ", sieving" : "",
       off[0], off[1], off[2], len[0], len[1], len[2]);
    unsigned char *buf = malloc(n), *cp = malloc(n);
    for (uint64_t i = 0; i < n; i++) cp[i] = buf[i] = rnd(256);
    h = nat_hash(off, 8 * o->nd, h), h = nat_hash(len, 8 * o->nd, h + wr);
    struct pdc_region_info ri;
    memset(&ri, 0, sizeof ri);
    ri.ndim = o->nd, ri.offset = off, ri.size = len;
    uint64_t off0[3], len0[3];
    memcpy(off0, off, 24), memcpy(len0, len, 24);
    io_by_region_g = !o->flat;
    perr_t r = PDC_Server_transfer_request_io(o->id, o->flat ? o->nd : rnd(2) ? 0 : o->nd, o->dim, &ri, buf, o->unit, wr);
    CHECK(r == SUCCEED, "%s failed", wr ? "write" : "read");
    CHECK(!memcmp(off, off0, 24) && !memcmp(len, len0, 24), "the region asked for was changed");
    if (wr) CHECK(!memcmp(buf, cp, n), "the data written was changed");
    uint64_t L[3] = {1, 1, 1}, O[3] = {0, 0, 0}, D[3] = {1, 1, 1};
    for (int d = 0; d < o->nd; d++) L[d] = len[d], O[d] = off[d], D[d] = o->dim[d];
    uint64_t p = 0;
    for (uint64_t x = 0; x < L[0]; x++) for (uint64_t y = 0; y < L[1]; y++) for (uint64_t z = 0; z < L[2]; z++) {
        uint64_t q = ((O[0] + x) * D[1] + O[1] + y) * D[2] + O[2] + z;
        if (wr) memcpy(o->val + q * o->unit, buf + p, o->unit), o->set[q] = 1;
        else if (o->set[q]) CHECK(!memcmp(o->val + q * o->unit, buf + p, o->unit), "element %lu,%lu,%lu read differs from the one written last", O[0] + x, O[1] + y, O[2] + z);
        p += o->unit;
    }
    free(buf), free(cp);
}
static void
history(void)
{
    obj_t ob[3];
    int no = 1 + rnd(3), steps = 1 + rnd(40);
    TR0();
    h = 0;
    for (int i = 0; i < no; i++) {
        obj_t *o = &ob[i];
        o->id = next_id++, o->nd = 1 + rnd(3), o->flat = rnd(2), o->unit = rnd(3) ? 1 + rnd(9) : 8;
        for (int d = 0; d < 3; d++) o->dim[d] = d < o->nd ? 1 + rnd(o->nd == 1 ? 200 : o->nd == 2 ? 16 : 8) : 55;
        o->val = malloc(total(o) * o->unit), o->set = calloc(total(o), 1);
        h = nat_hash(o->dim, 24, h + o->nd + o->flat + o->unit);
        if (!o->flat && !rnd(4)) PDC_Server_register_obj_region(o->id); /* keeps the file open */
    }
    for (int s = 0; s < steps; s++) {
        data_sieving_g = rnd(2);
        obj_t *o = &ob[rnd(no)];
        if (!o->flat && !rnd(10) && PDC_Server_get_obj_region(o->id)) PDC_Server_unregister_obj_region(o->id);
        io(o, rnd(5) < 3);
    }
    for (int i = 0; i < no; i++) {
        char p[200];
        for (int k = 0; k < 3; k++) io(&ob[i], 0);
        data_server_region_t *r = PDC_Server_get_obj_region(ob[i].id);
        CHECK(ob[i].flat || r, "the object is not registered");
        if (r) CHECK(r->obj_id == ob[i].id, "wrong object");
        sprintf(p, "pdc_data/%lu/server0/s0000.bin", ob[i].id), unlink(p);
        sprintf(p, "pdc_data/%lu/server0", ob[i].id), rmdir(p);
        sprintf(p, "pdc_data/%lu", ob[i].id), rmdir(p);
        free(ob[i].val), free(ob[i].set);
    }
    for (data_server_region_t *r = dataserver_region_g, *n; r; r = n) {
        n = r->next;
        if (r->fd >= 0) close(r->fd);
    }
    PDC_Server_clear_obj_region();
    dataserver_region_g = NULL;
    nat_note(h);
}
int
main(int argc, char **argv)
{
    nat_init(argc, argv);
    setenv("PDC_DATA_LOC", ".", 1);
    for (uint64_t n = 0; nat_time_left(1); n++) {
        nat_case();
        history();
        if (n < 3) SAMPLE("%.300s", nat_trace);
    }
    return nat_done();
}
