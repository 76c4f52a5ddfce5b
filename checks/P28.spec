csrc = ['harness/cli.c']
ldflags = ['-Wl,--wrap=Heap_GetUsagePercentage,--wrap=Runtime_Free']
max_mb = 20000
