#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup
#undef PDC_malloc
#undef PDC_calloc
