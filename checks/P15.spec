ldflags = ['-Wl,--wrap=Heap_GetUsagePercentage']
