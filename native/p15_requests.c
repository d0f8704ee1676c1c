/* native contract run for P15: life cycle of transfer requests, through the RPC handlers, against a model */
#include "nat.h"
#include SRC_T
#include SRC_C
#define N 40
#define W 60
enum { PEND, DONE };
static struct { uint64_t id; int st, w; } tab[N];
static int n;
static struct { int left, open, all, resp; } wt[W + 1];
static int nw;
static uint64_t cur_id;
/* stand-ins for Mercury: a handle is a number */
static int n_resp, r_handle, r_val, r_status, n_destroy[W + 400], in_free;
static int kind; /* 0: nothing may be answered, 1: status, 2: wait, 3: wait_all */
hg_return_t HG_Get_input(hg_handle_t h, void *p)
{
    if (kind == 1) ((transfer_request_status_in_t *)p)->transfer_request_id = cur_id;
    if (kind == 2) ((transfer_request_wait_in_t *)p)->transfer_request_id = cur_id;
    in_free++;
    return HG_SUCCESS;
}
hg_return_t HG_Free_input(hg_handle_t h, void *p) { in_free--; return HG_SUCCESS; }
hg_return_t HG_Bulk_free(hg_bulk_t b) { return HG_SUCCESS; }
static int exp_type[W + 400];
hg_return_t HG_Respond(hg_handle_t h, hg_cb_t cb, void *a, void *out)
{
    long k = (long)h;
    n_resp++, r_handle = k;
    CHECK(k > 0 && k < W + 400 && !n_destroy[k], "an answer to handle %ld, which is not open", k);
    if (exp_type[k] == 1) r_val = ((transfer_request_status_out_t *)out)->ret, r_status = ((transfer_request_status_out_t *)out)->status;
    else if (exp_type[k] == 2) r_val = ((transfer_request_wait_out_t *)out)->ret;
    else r_val = ((transfer_request_wait_all_out_t *)out)->ret;
    return HG_SUCCESS;
}
hg_return_t HG_Destroy(hg_handle_t h)
{
    n_destroy[(long)h]++;
    CHECK(n_destroy[(long)h] == 1, "handle %ld released twice", (long)h);
    return HG_SUCCESS;
}
static int find(uint64_t id) { for (int i = 0; i < n; i++) if (tab[i].id == id) return i; return -1; }
static void drop(int i) { memmove(tab + i, tab + i + 1, (n - i - 1) * sizeof tab[0]); n--; }
static void
table(void)
{
    pdc_transfer_request_status *p = transfer_request_status_list, *last = NULL;
    for (int i = 0; i < n; i++, last = p, p = p->next) {
        CHECK(p, "%d requests in the table, %d expected", i, n);
        CHECK(p->transfer_request_id == tab[i].id, "request %lu at place %d, expected %lu", p->transfer_request_id, i, tab[i].id);
        CHECK(p->status == (tab[i].st == DONE ? PDC_TRANSFER_STATUS_COMPLETE : PDC_TRANSFER_STATUS_PENDING), "status of request %lu is %u", tab[i].id, p->status);
        CHECK((p->handle_ref != NULL) == (tab[i].w >= 0), "request %lu %s a waiter", tab[i].id, p->handle_ref ? "has" : "lacks");
        if (tab[i].w >= 0) CHECK(*p->handle_ref == wt[tab[i].w].left, "the waiter of request %lu expects %d more, should be %d", tab[i].id, *p->handle_ref, wt[tab[i].w].left);
    }
    CHECK(!p, "more than %d requests in the table", n);
    CHECK(!n || transfer_request_status_list_end == last, "the end of the table");
}
static void answers(int want, int handle)
{
    CHECK(n_resp == want, "%d answers sent, expected %d", n_resp, want);
    if (!want) return;
    CHECK(r_handle == handle && r_val == 1, "answer to handle %d with %d, expected handle %d with 1", r_handle, r_val, handle);
    CHECK(n_destroy[handle] == 1, "handle %d answered but not released", handle);
}
/* what a status question of the protocol returns; a complete request is forgotten by it */
static int ask(uint64_t id)
{
    int i = find(id);
    if (i < 0) return PDC_TRANSFER_STATUS_NOT_FOUND;
    if (tab[i].w >= 0) return PDC_TRANSFER_STATUS_COMPLETE;
    if (tab[i].st == DONE) { drop(i); return PDC_TRANSFER_STATUS_COMPLETE; }
    return PDC_TRANSFER_STATUS_PENDING;
}
static void
history(void)
{
    nat_case();
    TR0();
    PDC_server_transfer_request_init();
    transfer_request_status_list = transfer_request_status_list_end = NULL;
    n = nw = 0;
    memset(n_destroy, 0, sizeof n_destroy), memset(exp_type, 0, sizeof exp_type);
    in_free = 0;
    uint64_t h = 1, ids[400];
    int ni = 0, nh = 1;
    for (int s = 4 + rnd(30); s--;) {
        int op = rnd(10);
        n_resp = 0, kind = 0;
        if (op < 3 && n < N) {
            uint64_t id = PDC_transfer_request_id_register();
            for (int i = 0; i < ni; i++) CHECK(ids[i] != id, "request id %lu given out twice", id);
            if (!rnd(6)) continue;
            ids[ni++] = id;
            TR("commit %lu\n", id);
            CHECK(PDC_commit_request(id) == SUCCEED, "commit");
            tab[n].id = id, tab[n].st = PEND, tab[n++].w = -1;
            answers(0, 0);
            h = nat_hash(&id, 8, h);
        }
        else if (!ni) continue;
        else if (op < 6) {
            uint64_t id = rnd(12) ? ids[rnd(ni)] : 777777;
            TR("finish %lu\n", id);
            PDC_finish_request(id);
            int i = find(id), a = 0, hd = 0;
            if (i >= 0) {
                tab[i].st = DONE;
                int w = tab[i].w;
                if (w >= 0) {
                    drop(i);
                    if (!--wt[w].left) a = 1, hd = wt[w].open;
                }
            }
            answers(a, hd);
            h = nat_hash(&id, 8, h + 1);
        }
        else if (nh < W + 390 && nw < W) {
            int hd = nh++;
            if (op == 6) {
                kind = exp_type[hd] = 1, cur_id = rnd(9) ? ids[rnd(ni)] : 888888;
                TR("status %lu\n", cur_id);
                transfer_request_status_cb((hg_handle_t)(long)hd);
                int want = ask(cur_id);
                answers(1, hd);
                CHECK(r_status == want, "status %d answered, expected %d", r_status, want);
                h = nat_hash(&cur_id, 8, h + 2);
            }
            else if (op == 7) {
                kind = exp_type[hd] = 2, cur_id = rnd(9) ? ids[rnd(ni)] : 888888;
                TR("wait %lu\n", cur_id);
                transfer_request_wait_cb((hg_handle_t)(long)hd);
                if (ask(cur_id) == PDC_TRANSFER_STATUS_PENDING) {
                    tab[find(cur_id)].w = nw, wt[nw].left = 1, wt[nw++].open = hd;
                    answers(0, 0);
                }
                else answers(1, hd);
                h = nat_hash(&cur_id, 8, h + 3);
            }
            else {
                int k = 1 + rnd(6), p = 0;
                struct transfer_request_wait_all_local_bulk_args *a = calloc(1, sizeof *a);
                uint64_t *b = malloc(8 * k), c[8];
                TR("wait for all of");
                for (int i = 0; i < k; i++) { c[i] = b[i] = rnd(9) ? ids[rnd(ni)] : 999999; TR(" %lu", b[i]); }
                TR("\n");
                exp_type[hd] = 3, in_free = 1;
                a->handle = (hg_handle_t)(long)hd, a->data_buf = (char *)b, a->in.n_objs = k;
                struct hg_cb_info ci;
                memset(&ci, 0, sizeof ci);
                ci.arg = a;
                transfer_request_wait_all_bulk_transfer_cb(&ci);
                for (int i = 0; i < k; i++)
                    if (ask(c[i]) == PDC_TRANSFER_STATUS_PENDING) tab[find(c[i])].w = nw, p++;
                if (p) wt[nw].left = p, wt[nw++].open = hd, answers(0, 0);
                else answers(1, hd);
                h = nat_hash(c, 8 * k, h + 4);
            }
            CHECK(in_free == 0, "the input of the call is not released");
        }
        table();
    }
    /* every waiter is answered once all requests are complete */
    while (n) {
        int i = rnd(n), w = tab[i].w, a = 0;
        uint64_t id = tab[i].id;
        n_resp = 0;
        TR("finish %lu\n", id);
        PDC_finish_request(id);
        tab[i].st = DONE;
        if (w >= 0) { drop(i); a = !--wt[w].left; answers(a, wt[w].open); }
        else { CHECK(PDC_check_request(id) == PDC_TRANSFER_STATUS_COMPLETE, "complete request %lu not reported complete", id); drop(i); }
        table();
    }
    for (int i = 1; i < nh; i++) CHECK(n_destroy[i] == 1, "handle %d answered and released %d times", i, n_destroy[i]);
    CHECK(!transfer_request_status_list && PDC_check_request(1) == PDC_TRANSFER_STATUS_NOT_FOUND, "the table is not empty");
    PDC_server_transfer_request_finalize();
    nat_note(h);
}
int
main(int argc, char **argv)
{
    nat_init(argc, argv);
    for (uint64_t n = 0; nat_time_left(1); n++) {
        history();
        if (n < 3) SAMPLE("%.300s", nat_trace);
    }
    return nat_done();
}
