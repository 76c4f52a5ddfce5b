/* The command line interface as a function of the harness */
#define main nj_cli_main
#include "../cli/main.c"
