#define assert(e) ((void)0)
