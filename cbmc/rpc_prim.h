/* the Mercury encoders, replaced by a lossless typed wire: what one call writes, the matching call reads */
#define PRIM(name, T, K)                                                                                                \
    hg_return_t name(hg_proc_t proc, void *data)                                                                        \
    {                                                                                                                  \
        if (op == HG_ENCODE) { wire[wr].kind = K; wire[wr].v = (uint64_t)*(T *)data; wr++; }                            \
        else if (op == HG_DECODE) { OK(rd < wr && wire[rd].kind == K, "decoding reads the wire as it was written"); *(T *)data = (T)wire[rd].v; rd++; } \
        return HG_SUCCESS;                                                                                              \
    }
PRIM(hg_proc_int8_t, int8_t, 1) PRIM(hg_proc_uint8_t, uint8_t, 1) PRIM(hg_proc_int16_t, int16_t, 2) PRIM(hg_proc_uint16_t, uint16_t, 2)
PRIM(hg_proc_int32_t, int32_t, 4) PRIM(hg_proc_uint32_t, uint32_t, 4) PRIM(hg_proc_int64_t, int64_t, 8) PRIM(hg_proc_uint64_t, uint64_t, 8)
PRIM(hg_proc_hg_size_t, uint64_t, 8) PRIM(hg_proc_hg_uint64_t, uint64_t, 8) PRIM(hg_proc_hg_uint32_t, uint32_t, 4) PRIM(hg_proc_hg_bool_t, uint8_t, 1)
hg_return_t hg_proc_hg_bulk_t(hg_proc_t proc, void *data)
{
    if (op == HG_ENCODE) { wire[wr].kind = 20; wire[wr].p = *(void **)data; wr++; }
    else if (op == HG_DECODE) { OK(rd < wr && wire[rd].kind == 20, "decoding reads the wire as it was written"); *(void **)data = wire[rd].p; rd++; }
    return HG_SUCCESS;
}
hg_return_t hg_proc_hg_string_t(hg_proc_t proc, void *data)
{
    if (op == HG_ENCODE) { wire[wr].kind = 21; wire[wr].p = *(void **)data; wr++; }
    else if (op == HG_DECODE) { OK(rd < wr && wire[rd].kind == 21, "decoding reads the wire as it was written"); *(void **)data = wire[rd].p; rd++; }
    return HG_SUCCESS;
}
hg_return_t hg_proc_hg_const_string_t(hg_proc_t proc, void *data) { return hg_proc_hg_string_t(proc, data); }
static tok gst[8];

hg_return_t hg_proc_raw(hg_proc_t proc, void *buf, hg_size_t n)
{
    if (op == HG_ENCODE) { wire[wr].kind = 22; wire[wr].p = buf; wire[wr].n = n; wr++; }
    else if (op == HG_DECODE) {
        OK(rd < wr && wire[rd].kind == 22 && wire[rd].n == n, "decoding reads the wire as it was written");
#ifdef NATIVE
        if (n) memcpy(buf, wire[rd].p, n);
#else
        OK(n == 0 || alloc_ok(buf, n) || __CPROVER_w_ok(buf, n), "the receiving buffer holds all of the data");
#endif
        gst[ng].p = buf; gst[ng].n = n; gst[ng].v = (uint64_t)rd; ng++; rd++;
    }
    return HG_SUCCESS;
}
hg_proc_op_t hg_proc_get_op(hg_proc_t p) { return op; }
static int sent(const void *p, uint64_t n)
{
    for (int i = 0; i < wr; i++) if (wire[i].kind == 22 && wire[i].p == p && wire[i].n == n) return 1;
    return n == 0;
}
static int got(const void *a, const void *b, uint64_t n)
{
    for (int i = 0; i < ng; i++) if (gst[i].p == a && gst[i].n == n && wire[gst[i].v].p == b) return 1;
    return n == 0;
}
