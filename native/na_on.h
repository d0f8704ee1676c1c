#define malloc na_malloc
#define calloc na_calloc
#define realloc na_realloc
#define free na_free
#undef strdup
#define strdup na_strdup
#define PDC_malloc na_pm
#define PDC_calloc na_pc
