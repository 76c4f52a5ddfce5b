csrc = ['harness/fault.c']
ldflags = ['-Wl,' + ','.join('--wrap=' + f for f in 'malloc calloc realloc strdup fmemopen fopen opendir getcwd fseek ftell fread socket accept setsockopt Heap_GetUsagePercentage'.split())]
fill = 1
