/* The build tool that embeds a file, as a function of the harness */
#define main nj_embedder_main
#include "../../misc/embedder.c"
